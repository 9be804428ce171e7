----------------------------- MODULE MCBitmap -----------------------------
(***************************************************************************)
(* Presence bitmaps (C16, C17) of every size: two bitmaps on chosen        *)
(* positions, set, cleared, written to a buffer and read back into either. *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Many         \* more positions?

Pos(n) == CASE n = 8 -> IF Many THEN 0..7 ELSE {0, 3, 7}
            [] n = 16 -> IF Many THEN {0, 1, 7, 8, 15} ELSE {0, 8, 15}
            [] n = 32 -> IF Many THEN {0, 3, 4, 24, 31} ELSE {0, 3, 31}
            [] OTHER -> IF Many THEN {0, 1, 7, 8, 63} ELSE {0, 1, 63}
PosQ(n) == IF Many THEN {0, n - 1} ELSE {n - 1}
Bits(mm, s) == s.bms[mm].bits
View2(w, s) == << w, Bits("p", s), Bits("q", s) >>
ModelView == View2(who, lib)

Prefix(n) == << [ op |-> "bm", m |-> "p", n |-> n ], [ op |-> "bm", m |-> "q", n |-> n ],
                [ op |-> "buf", b |-> "x", kind |-> "heap", ro |-> FALSE, d |-> << 255 >>, r |-> 1, c |-> "", v |-> << >>, at |-> 0 ] >>

Init == \E n \in {8, 16, 32, 64} : Start(n, Prefix(n), View2)

Next ==
  \/ \E p \in Pos(who) : \E o \in {"bset", "bclr"} : Go(<< [ op |-> o, m |-> "p", p |-> p ] >>, View2)
  \/ \E p \in PosQ(who) : \E o \in {"bset", "bclr"} : Go(<< [ op |-> o, m |-> "q", p |-> p ] >>, View2)
  \/ \E q \in {"p", "q"} : Go(<< [ op |-> "bwrite", m |-> "p", b |-> "x" ], [ op |-> "bread", m |-> q, b |-> "x" ], [ op |-> "compact", b |-> "x" ] >>, View2)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The laws, on the history alone *)
Changes(i, mm) == (hist[i].op.op \in {"bset", "bclr"} \/ Is(i, "bread")) /\ hist[i].op.m = mm
Latest(mm, pos, to) ==     \* the latest call that determines position pos of bitmap mm
  LET T == { i \in 1..(to - 1) : Changes(i, mm) /\ (Is(i, "bread") \/ hist[i].op.p = pos) } IN
  IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : j <= i
RECURSIVE Present(_, _, _)
\* what a read returns is what was written just before it
Present(mm, pos, to) ==
  LET i == Latest(mm, pos, to) IN
  CASE i = 0 -> FALSE
    [] Is(i, "bread") -> (who # 16 \/ pos # 0) /\ Present("p", pos, i - 1)      \* finding bitmap16-position0
    [] OTHER -> Is(i, "bset")

SetOfPositions == \A pos \in 0..(who - 1) : \A mm \in {"p", "q"} :
  (pos \in lib.bms[mm].bits) = Present(mm, pos, Len(hist) + 1)
WireRestores == \A i \in At : Is(i, "bread") =>
  hist[i].ok /\ hist[i].seen = BmBack(who, hist[i - 1].was)
Consumed == lib.bufs["x"].r = Len(lib.bufs["x"].d) \/ steps = 0
=============================================================================
