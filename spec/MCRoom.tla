------------------------------- MODULE MCRoom -------------------------------
(***************************************************************************)
(* Calls that fail (C26): every class is encoded into a buffer with room    *)
(* for some of its bytes only, for every number of bytes, and into one that *)
(* grows; a decode that is cut off comes before or after it.                *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects, Share, Pick

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Full(c) == Rich(c, 1)
Prefix(c) == << [ op |-> "new", o |-> "m", c |-> c ], [ op |-> "fill", o |-> "m", v |-> Full(c) ], [ op |-> "new", o |-> "t", c |-> c ] >>
View2(w, s) == << w >>
ModelView == << who, hist >>
Init == \E c \in Classy : Start(c, Prefix(c), View2)

Buf1(b, d, kind) == [ op |-> "buf", b |-> b, kind |-> kind, ro |-> FALSE, d |-> d, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Room(b, d, n, k) == [ op |-> "buf", b |-> b, kind |-> IF k % 2 = 0 THEN "cap" ELSE "capdir", ro |-> FALSE, d |-> d, r |-> Len(d),
                      c |-> "", v |-> << >>, at |-> 0, max |-> n + Len(d) ]
Whole == EncMsg(who, Full(who), DefaultReg).b
Enc(b) == [ op |-> "enc", o |-> "m", b |-> b ]
Cut(k) == << Buf1("c", Slice(Whole, 0, k), "heap"), [ op |-> "dec", o |-> "t", b |-> "c" ] >>

Next == \E k \in 0..(Len(Whole) + 1) :
  /\ k % Share = Pick \/ k >= Len(Whole) - 1
  /\ Go((IF k % 3 = 0 /\ k < Len(Whole) THEN Cut(k) ELSE << >>)
        \o << Room("l", << 9, 8 >>, k, k), Enc("l"), [ op |-> "release", b |-> "l" ], Buf1("y", << 7 >>, "heap"), Enc("y"),
              [ op |-> "seek", b |-> "y", r |-> 1 ], [ op |-> "dec", o |-> "t", b |-> "y" ] >>, View2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Encs(b) == { i \in At : Is(i, "enc") /\ hist[i].op.b = b }
\* it succeeds exactly if there is room for all of it
FitsOrFails == \A i \in Encs("l") : hist[i].ok <=> Len(hist[i - 1].op.d) + Len(Whole) <= hist[i - 1].op.max
\* a failure changes neither what the message carries, nor what comes of it later
Retried == \A i \in Encs("y") : hist[i].ok /\ hist[i].ret = Whole
Unharmed == \A i \in Encs("l") \cup Encs("y") : Given(who, hist[i].seen) = Given(who, hist[i].was)
ReadBack == \A i \in At : Is(i, "dec") /\ hist[i].op.b = "y" => hist[i].ok /\ Given(who, hist[i].seen) = Given(who, Back(who, Full(who)))
NeverOver == \A b \in DOMAIN lib.bufs : Len(lib.bufs[b].d) <= lib.bufs[b].max
=============================================================================
