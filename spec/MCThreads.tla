----------------------------- MODULE MCThreads -----------------------------
(***************************************************************************)
(* Threads (C20).  Here a call is not one step: every thread encodes a     *)
(* frame of its own into a buffer of its own in five steps - header, body, *)
(* two halves of the checksum, trailer - which interleave freely.  What    *)
(* threads share is the registry; the checksum is accumulated in the       *)
(* thread (with "sharedScratch" in Bug: in one place for all).             *)
(* Every complete interleaving is written to EDGES and then forced on the  *)
(* real library (harness: Par), a step being a few buffer accesses.        *)
(***************************************************************************)
EXTENDS FinProto, Samples, Json, IOUtils, CSV

CONSTANTS Threads

VARIABLES pc, buf, acc, sched

vars == << pc, buf, acc, sched >>

C == "sample_RootPacket"
Val(t) == Rich(C, t - 1)
Enc(t) == EncMsg(C, Val(t), DefaultReg)
T == 1..Threads
Frame == TLCEval([ t \in T |-> Enc(t).b ])

CrcStep(c, x) == LET tt == Crc32T[(c[2] ^^ x) % 256] IN << (c[1] \div 256) ^^ tt[1], ((c[2] \div 256) + 256 * (c[1] % 256)) ^^ tt[2] >>
Crc(c, b) == FoldLeft(CrcStep, c, b)
Final(c) == LET h == c[1] ^^ 65535 low == c[2] ^^ 65535 IN << h \div 256, h % 256, low \div 256, low % 256 >>
Begin == << 65535, 65535 >>
Slot(t) == IF "sharedScratch" \in Bug THEN 1 ELSE t

Body(t) == Len(Frame[t]) - 4
Half(t) == Body(t) \div 2
Step(t) ==
  /\ pc[t] < 5
  /\ pc' = [ pc EXCEPT ![t] = @ + 1 ]
  /\ sched' = Append(sched, t)
  /\ CASE pc[t] = 0 -> buf' = [ buf EXCEPT ![t] = Slice(Frame[t], 0, 6) ] /\ acc' = acc
       [] pc[t] = 1 -> buf' = [ buf EXCEPT ![t] = @ \o Slice(Frame[t], 6, Body(t)) ] /\ acc' = [ acc EXCEPT ![Slot(t)] = Begin ]
       [] pc[t] = 2 -> acc' = [ acc EXCEPT ![Slot(t)] = Crc(@, Slice(buf[t], 0, Half(t))) ] /\ buf' = buf
       [] pc[t] = 3 -> acc' = [ acc EXCEPT ![Slot(t)] = Crc(@, Slice(buf[t], Half(t), Body(t))) ] /\ buf' = buf
       [] pc[t] = 4 -> buf' = [ buf EXCEPT ![t] = @ \o Order(Final(acc[Slot(t)]), LE) ] /\ acc' = acc

Init == pc = [ t \in T |-> 0 ] /\ buf = [ t \in T |-> << >> ] /\ acc = [ t \in T |-> Begin ] /\ sched = << >>
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars

\* a thread that has finished has exactly the bytes it would have got alone
AsIfAlone == \A t \in T : pc[t] = 5 => buf[t] = Frame[t]
\* at every moment a thread's buffer holds the beginning of its own frame
OwnBytes == \A t \in T : IsPrefix(buf[t], Frame[t])
Record == (\A t \in T : pc[t] = 5) => (IF "EDGES" \in DOMAIN IOEnv THEN CSVWrite("%1$s", << ToJson(sched) >>, IOEnv.EDGES) ELSE TRUE)
=============================================================================
