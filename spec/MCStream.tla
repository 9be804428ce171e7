----------------------------- MODULE MCStream -----------------------------
(***************************************************************************)
(* Frames in a stream (C03 - C06, C22): two producers and a peer append    *)
(* frames to one buffer, a consumer decodes them into a used or a new      *)
(* message, passes them on into a second buffer, and discards what has     *)
(* been read - in any order.                                               *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Unr          \* unread frames at a time

\* body classes that keep the frames small
Small == [ sse_SseBinary |-> << "sse_Heartbeat", "sse_OrderReject" >>, szse_SzseBinary |-> << "szse_Heartbeat", "szse_Logout" >>,
           bjse_BjseBinary |-> << "bjse_Heartbeat", "bjse_Logout" >>, risk_RcBinary |-> << "risk_OrderCancel", "risk_OrderConfirm" >>,
           sample_RootPacket |-> << "sample_EmptyPacket", "sample_NestedPacket" >> ]
KeyFor(w, c) == LET t == DefaultTypes[w] IN t[CHOOSE i \in 1..Len(t) : t[i][2] = c][1]
Val(w, n) == LET c == Small[w][n] IN
             WithPart(w, Rich(w, n), KeyFor(w, c), << c, IF n = 1 THEN Hollow(c, 0) ELSE Rich(c, n) >>)
Peer(w) == EncMsg(w, Val(w, 2), DefaultReg)

Empty(b) == [ op |-> "buf", b |-> b, kind |-> "heap", ro |-> FALSE, d |-> << >>, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Prefix(w) == << [ op |-> "new", o |-> "m1", c |-> w ], [ op |-> "fill", o |-> "m1", v |-> Val(w, 1) ],
                [ op |-> "new", o |-> "m2", c |-> w ], [ op |-> "fill", o |-> "m2", v |-> Val(w, 2) ],
                [ op |-> "new", o |-> "t", c |-> w ], Empty("x"), Empty("y") >>

Unread(s) == SelectSeq(s.bufs["x"].sent, LAMBDA e : e.at >= s.bufs["x"].r)
Kinds(es) == [ i \in 1..Len(es) |-> << es[i].v, es[i].src >> ]
View2(w, s) == << w, s.bufs["x"].d, s.bufs["x"].r, Kinds(s.bufs["x"].sent), s.heap["t"].v, s.heap["t"].org >>
ModelView == View2(who, lib)

Init == \E w \in Frames : Start(w, Prefix(w), View2)

Room == Len(Unread(lib)) < Unr /\ Len(lib.bufs["x"].sent) < Unr + 1
Next ==
  \/ Room /\ \E o \in {"m1", "m2"} : Go(<< [ op |-> "enc", o |-> o, b |-> "x" ] >>, View2)
  \/ Room /\ Go(<< [ op |-> "write", b |-> "x", d |-> Peer(who).b, c |-> who, v |-> Peer(who).v ] >>, View2)
  \/ Unread(lib) # << >> /\ Go(<< [ op |-> "dec", o |-> "t", b |-> "x" ] >>, View2)
  \/ Unread(lib) # << >> /\ Go(<< [ op |-> "new", o |-> "t", c |-> who ], [ op |-> "dec", o |-> "t", b |-> "x" ] >>, View2)
  \/ lib.bufs["x"].r > 0 /\ Go(<< [ op |-> "compact", b |-> "x" ] >>, View2)
  \/ lib.heap["t"].org # Absent /\ Go(<< [ op |-> "enc", o |-> "t", b |-> "y" ], [ op |-> "clear", b |-> "y" ] >>, View2)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The laws, on the history and the bytes alone *)
Sends(i) == (Is(i, "enc") /\ hist[i].op.b = "x") \/ Is(i, "write")
Sent == LET es == SelectSeq(hist, LAMBDA h : (h.op.op = "enc" /\ h.op.b = "x") \/ h.op.op = "write") IN
        [ i \in 1..Len(es) |-> Back(who, IF es[i].op.op = "enc" THEN es[i].seen ELSE es[i].op.v) ]
Got == LET es == SelectSeq(hist, LAMBDA h : h.op.op = "dec") IN [ i \in 1..Len(es) |-> es[i].seen ]
\* what was read is, in order, a prefix of what was sent
Fifo == /\ Len(Got) <= Len(Sent)
        /\ \A i \in 1..Len(Got) : SameV(who, Got[i], Sent[i])
AllRead == \A i \in At : Is(i, "dec") => hist[i].ok
\* the unread bytes are exactly the unread frames
Tiled == LET u == Unread(lib) b == lib.bufs["x"] IN
  /\ u = << >> => b.r = Len(b.d)
  /\ u # << >> => u[1].at = b.r /\ u[Len(u)].at + u[Len(u)].len = Len(b.d)
  /\ \A i \in 1..(Len(u) - 1) : u[i].at + u[i].len = u[i + 1].at
LengthHeader == \A i \in At : Is(i, "enc") /\ FieldsOfKind(who, "blen") # {} => LenOk(who, hist[i].ret, hist[i].seen)
Trailer == \A i \in At : Is(i, "enc") /\ FieldsOfKind(who, "chk") # {} => ChkOk(who, hist[i].ret, hist[i].was, hist[i].seen, lib.reg)
OnlyComputed == \A i \in At : Is(i, "enc") => Given(who, hist[i].seen) = Given(who, hist[i].was)
SameBytes == \A i, j \in At : Is(i, "enc") /\ Is(j, "enc") /\ Given(who, hist[i].was) = Given(who, hist[j].was)
                              /\ (FieldsOfKind(who, "blen") # {} \/ hist[i].was = hist[j].was) => hist[i].ret = hist[j].ret
\* what came from the peer is passed on unchanged
Relayed == \A i \in At : Is(i, "enc") /\ hist[i].op.o = "t" =>
   LET j == CHOOSE j \in 1..(i - 1) : Is(j, "dec") /\ \A k \in (j + 1)..(i - 1) : ~Is(k, "dec") IN
   SameV(who, hist[j].seen, Back(who, Peer(who).v)) => hist[i].ret = Peer(who).b
AppendOnly == [][ \A i \in (Len(hist) + 1)..Len(hist') :
                    hist'[i].op.op = "enc" /\ hist'[i].op.b = "x" =>
                    lib'.bufs["x"].d = lib.bufs["x"].d \o hist'[i].ret /\ lib'.bufs["x"].r = lib.bufs["x"].r ]_vars
=============================================================================
