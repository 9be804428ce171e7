------------------------------ MODULE MCRetry ------------------------------
(***************************************************************************)
(* Reading what is still arriving (C27): for every class, two messages     *)
(* arrive in pieces, the first one cut at any byte.  Between the pieces the *)
(* reader marks its position, attempts a decode, and goes back to the mark  *)
(* if that fails - once, twice or not at all.                               *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects, Share, Pick

Classy == IF Subjects = {} THEN Classes ELSE Subjects
\* who = << class, where the first message is cut >>
M(n) == EncMsg(who[1], Rich(who[1], n), DefaultReg)
Prefix(w) == << [ op |-> "buf", b |-> "x", kind |-> << "heap", "direct", "comp", "slice" >>[1 + (w[2] % 4)], ro |-> FALSE, d |-> << 1, 2, 3 >>, r |-> 3,
                  c |-> "", v |-> << >>, at |-> 0 ],
                [ op |-> "new", o |-> "t", c |-> w[1] ] >>
View2(w, s) == << w, Len(s.bufs["x"].d), s.bufs["x"].r, s.heap["t"].v >>
ModelView == View2(who, lib)
Init == \E c \in Classy : \E k \in 0..Len(EncMsg(c, Rich(c, 1), DefaultReg).b) :
           k % Share = Pick /\ Start(<< c, k >>, Prefix(<< c, k >>), View2)

Arrived == Len(lib.bufs["x"].d) - 3
Piece(d) == [ op |-> "write", b |-> "x", d |-> d, c |-> "", v |-> << >> ]
Final(n, k) == [ op |-> "write", b |-> "x", d |-> Slice(M(n).b, k, Len(M(n).b)), c |-> who[1], v |-> M(n).v, back |-> k ]
Mark == [ op |-> "mark", b |-> "x" ]
Reset == [ op |-> "reset", b |-> "x" ]
Dec == [ op |-> "dec", o |-> "t", b |-> "x" ]
Whole == DecMsg(who[1], lib.bufs["x"].d, lib.bufs["x"].r, lib.tm).ok
Len1 == Len(M(1).b)
Len2 == Len(M(2).b)

Arrive ==
  IF Arrived = 0 /\ who[2] > 0 /\ who[2] < Len1 THEN Go(<< Piece(Slice(M(1).b, 0, who[2])) >>, View2)
  ELSE IF Arrived < Len1 THEN Go(<< Final(1, Arrived) >>, View2)
  ELSE IF Arrived = Len1 /\ Len2 > 1 THEN Go(<< Piece(Slice(M(2).b, 0, Len2 - 1)) >>, View2)
  ELSE Go(<< Final(2, Arrived - Len1) >>, View2)

Next ==
  \/ Arrived < Len1 + Len2 /\ Arrive
  \/ Arrived > 0 /\ lib.bufs["x"].r < Len1 + Len2 + 3 /\ Go(IF Whole THEN << Mark, Dec >> ELSE << Mark, Dec, Reset >>, View2)
  \/ Arrived > 0 /\ lib.bufs["x"].r < Len1 + Len2 + 3 /\ Go(<< Mark, Dec, Reset >>, View2)        \* only a look
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the bytes that had arrived before call i, without the three that were there
Before(i) == FoldLeft(LAMBDA n, j : n + (IF j < i /\ Is(j, "write") THEN Len(hist[j].op.d) ELSE 0), 0, [ j \in At |-> j ])
Decs == { i \in At : Is(i, "dec") }
Kept(i) == hist[i].ok /\ (i = Len(hist) \/ ~Is(i + 1, "reset"))
\* how many messages have been read for good before call i
Read(i) == Cardinality({ j \in Decs : j < i /\ Kept(j) })
End(n) == IF n = 1 THEN Len1 ELSE Len1 + Len2
\* an attempt succeeds exactly if all of the next message is there, and yields that message
JustInTime == \A i \in Decs : Read(i) < 2 /\ (hist[i].ok <=> Before(i) >= End(Read(i) + 1))
InOrder == \A i \in Decs : hist[i].ok => SameV(who[1], hist[i].seen, Back(who[1], M(Read(i) + 1).v))
\* the reader is where it has read to
Position == lib.bufs["x"].r = 3 + (IF Read(Len(hist) + 1) = 0 THEN 0 ELSE End(Read(Len(hist) + 1)))
=============================================================================
