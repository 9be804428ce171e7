----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* The checksum registry (C15) and what frames make of it (C04): services  *)
(* of two algorithms, one of them registered from the start, in any order  *)
(* of registering, removing, clearing, looking up and encoding.            *)
(***************************************************************************)
EXTENDS MCBase

Svcs == << [ op |-> "svc", s |-> "a1", alg |-> "CRC32", impl |-> "const" ], [ op |-> "svc", s |-> "a2", alg |-> "CRC32", impl |-> "crc32" ],
           [ op |-> "svc", s |-> "b1", alg |-> "SSE_BIN", impl |-> "sum" ], [ op |-> "svc", s |-> "b2", alg |-> "SSE_BIN", impl |-> "crc16" ] >>
AlgOf == [ s \in {"a1", "a2", "b1", "b2"} |-> IF s \in {"a1", "a2"} THEN "CRC32" ELSE "SSE_BIN" ]
Names == { "CRC32", "SSE_BIN" }

Mk(o, c, v) == << [ op |-> "new", o |-> o, c |-> c ], [ op |-> "fill", o |-> o, v |-> v ] >>
Prefix == Svcs \o Mk("r", "sample_RootPacket", Hollow("sample_RootPacket", 3)) \o Mk("e", "sse_SseBinary", Rich("sse_SseBinary", 0))
          \o << [ op |-> "buf", b |-> "x", kind |-> "heap", ro |-> FALSE, d |-> << 1, 2, 3 >>, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ] >>

View2(w, s) == << s.reg >>
ModelView == View2(who, lib)

Init == Start("registry", Prefix, View2)

LookAll == << [ op |-> "look", n |-> "CRC32" ], [ op |-> "look", n |-> "SSE_BIN" ], [ op |-> "look", n |-> "CRC16" ] >>
Enc(o) == << [ op |-> "enc", o |-> o, b |-> "x" ], [ op |-> "clear", b |-> "x" ], [ op |-> "write", b |-> "x", d |-> << 9, 8 >>, c |-> "", v |-> << >> ] >>

Next ==
  \/ \E s \in DOMAIN AlgOf : Go(<< [ op |-> "reg", s |-> s ] >> \o LookAll, View2)
  \/ \E n \in Names : Go(<< [ op |-> "unreg", n |-> n ] >> \o LookAll, View2)
  \/ Go(<< [ op |-> "regclr" ] >> \o LookAll, View2)
  \/ Go(Enc("r") \o LookAll, View2)
  \/ Go(Enc("e") \o LookAll, View2)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The laws, on the history alone *)
AlgAt(i) == IF i = 0 THEN "" ELSE AlgOf[hist[i].op.s]
Frees(j, n) == (Is(j, "unreg") /\ hist[j].op.n = n) \/ Is(j, "regclr")
Freed(n, from, to) == \E j \in (from + 1)..(to - 1) : Frees(j, n)
\* registrations of n since it was last free, before call to; 0 stands for the initial service
Live(n, to) == (IF Freed(n, 0, to) THEN {} ELSE {0})
               \cup { i \in 1..(to - 1) : Is(i, "reg") /\ AlgAt(i) = n /\ ~Freed(n, i, to) }
Holder(n, to) == LET Lv == Live(n, to) IN
                 IF Lv = {} THEN "" ELSE LET f == CHOOSE i \in Lv : \A j \in Lv : i <= j IN
                                        IF f = 0 THEN DefaultReg[n].id ELSE hist[f].op.s

FirstRegistrationWins == \A i \in At :
  /\ Is(i, "reg") => hist[i].ret = (Live(AlgAt(i), i) = {})
  /\ Is(i, "look") /\ hist[i].op.n \in Names => hist[i].ret = Holder(hist[i].op.n, i)

\* a frame's trailer is the current holder's checksum, or the caller's own
ImplOf == [ a1 |-> "const", a2 |-> "crc32", b1 |-> "sum", b2 |-> "crc16" ]
HolderSvc(n, to) == LET h == Holder(n, to) IN
                    IF h \in DOMAIN ImplOf THEN [ id |-> h, alg |-> n, impl |-> ImplOf[h] ] ELSE DefaultReg[n]
Trailers == \A i \in At : Is(i, "enc") =>
  LET c == IF hist[i].op.o = "r" THEN "sample_RootPacket" ELSE "sse_SseBinary"
      n == IF hist[i].op.o = "r" THEN "CRC32" ELSE "SSE_BIN"
      reg == IF Holder(n, i) = "" THEN EmptyFn ELSE (n :> HolderSvc(n, i))
  IN hist[i].ok /\ ChkOk(c, hist[i].ret, hist[i].was, hist[i].seen, reg) /\ LenOk(c, hist[i].ret, hist[i].seen)
=============================================================================
