------------------------------- MODULE MCCuts -------------------------------
(***************************************************************************)
(* Incomplete and unknown input (C12, C09, C10): for every class, a full   *)
(* encoding cut off at every byte, with and without other bytes lying      *)
(* beyond the end of what is readable, and selectors that nothing is       *)
(* assigned to.                                                            *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects, Share, Pick

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Prefix(c) == << [ op |-> "new", o |-> "t", c |-> c ] >>
View2(w, s) == << w >>
ModelView == << who, hist >>       \* every call is a state of its own
Init == \E c \in Classy : Start(c, Prefix(c), View2)

\* "dirty" buffers have other bytes behind their readable ones
Kind(k) == << "heap", "dirty", "wrap", "slice" >>[1 + (k % 4)]
Buf1(d, k) == [ op |-> "buf", b |-> "x", kind |-> Kind(k), ro |-> FALSE, d |-> d, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Whole(n) == EncMsg(who, Rich(who, n), DefaultReg).b
SelNum(w) == LET i == CHOOSE i \in FieldsOfKind(w, "dyn") : TRUE IN Tables[w][IndexOf(w, Tables[w][i].sel)].k = "num"
\* selectors next to the assigned ones
Near(w, key) == IF SelNum(w) THEN { key + 1, key - 1, -1 - key, 0 }
                ELSE { << >>, << key[1] >>, SubSeq(key, 1, Len(key) - 1) \o << 33 >>, << 97 >> \o Tail(key), << 0 >> \o SubSeq(key, 1, Len(key) - 1) }
Unassigned(w) == UNION { { k \in Near(w, DefaultTypes[w][i][1]) : ~HasKey(DefaultTypes[w], k) } : i \in 1..Len(DefaultTypes[w]) }

Read(d, k) == Go(<< Buf1(d, k), [ op |-> "dec", o |-> "t", b |-> "x" ] >>, View2)
Next ==
  \/ \E n \in (IF who \in Owners THEN {1, 2} ELSE {1}) : \E k \in 0..Len(Whole(n)) :
        (k + n) % Share = Pick /\ Read(Slice(Whole(n), 0, k), k \div Share)
  \/ Read(Whole(1), 1)
  \/ who \in Owners /\ \E k \in Unassigned(who) :
        Read(EncMsg(who, WithPart(who, Rich(who, 1), k, Rich(who, 1)[CHOOSE i \in FieldsOfKind(who, "dyn") : TRUE]), DefaultReg).b, 0)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Decs == { i \in At : Is(i, "dec") }
\* what decodes is a whole encoding, and nothing is left over or invented
OnlyWhole == \A i \in Decs : hist[i].ok => hist[i - 1].op.d \in { Whole(1), Whole(2) }
WholeAccepted == \A i \in Decs : hist[i - 1].op.d = Whole(1) => hist[i].ok
UnknownRejected == \A i \in Decs : who \in Owners /\ ~hist[i].ok =>
   \/ hist[i].ret = "type"
   \/ hist[i].ret = "short" /\ \E n \in {1, 2} : IsPrefix(hist[i - 1].op.d, Whole(n))
Consumed == steps > 0 /\ hist[Len(hist)].ok => lib.bufs["x"].r = Len(lib.bufs["x"].d)
=============================================================================
