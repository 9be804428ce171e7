------------------------------ MODULE MCFields ------------------------------
(***************************************************************************)
(* Every field of every class, one at a time, through its boundary values  *)
(* (C01, C02, C11, C13, C18, C19, C21, C22): set on an otherwise full or   *)
(* empty message, encoded, decoded into a new message and compared with    *)
(* it, passed on.                                                          *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects,   \* which classes; {} for all
          Share,      \* explore one in so many values
          Pick        \* ... which ones

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Empty(b) == [ op |-> "buf", b |-> b, kind |-> "heap", ro |-> FALSE, d |-> << >>, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Prefix(c) == << [ op |-> "new", o |-> "m", c |-> c ], Empty("x"), Empty("y") >>

View2(w, s) == << w >>
ModelView == << who, hist >>       \* every call is a state of its own
Init == \E c \in Classy : Start(c, Prefix(c), View2)

Base(k) == IF k = 1 THEN Rich(who, 1) ELSE Hollow(who, 1)
Try(k, i, val) ==
  Go(<< [ op |-> "fill", o |-> "m", v |-> Base(k) ], [ op |-> "set", o |-> "m", path |-> << i >>, val |-> val ],
        [ op |-> "enc", o |-> "m", b |-> "x" ], [ op |-> "new", o |-> "t", c |-> who ], [ op |-> "dec", o |-> "t", b |-> "x" ],
        [ op |-> "eq", a |-> "t", b |-> "m" ],
        [ op |-> "enc", o |-> "t", b |-> "y" ], [ op |-> "clear", b |-> "x" ], [ op |-> "clear", b |-> "y" ] >>, View2)

\* selectors are left alone
IsSel(i) == \E d \in FieldsOfKind(who, "dyn") : Tables[who][d].sel = Tables[who][i].n
Next == \E i \in 1..Len(Tables[who]) : ~IsSel(i) /\
          LET ds == Dom(Tables[who][i]) IN
          \E n \in 1..Len(ds) : \E k \in 1..2 :
             (2 * (i + n) + k) % Share = Pick /\ Try(k, i, ds[n])

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
At4 == { i \in At : Is(i, "fill") }          \* where the tries begin
RoundTrips == \A i \in At4 : Carriable(who, hist[i + 1].seen, DefaultTypes) =>
  /\ hist[i + 2].ok
  /\ hist[i + 4].ok /\ SameV(who, hist[i + 4].seen, Back(who, hist[i + 2].seen))
  /\ hist[i + 6].ret = hist[i + 2].ret
TheOtherFieldsStay == \A i \in At4 : \A j \in 1..Len(Tables[who]) :
  j # hist[i + 1].op.path[1] => hist[i + 1].seen[j] = hist[i].seen[j]
EqualMeansSameBytes == \A i \in At4 : hist[i + 5].ret => hist[i + 2].ret = hist[i + 6].ret
=============================================================================
