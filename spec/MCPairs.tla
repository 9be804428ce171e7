------------------------------ MODULE MCPairs ------------------------------
(***************************************************************************)
(* Equality (C13): for every class and every field, two messages that      *)
(* agree everywhere else hold every pair of boundary values of the field.  *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects, Share, Pick

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Prefix(c) == << [ op |-> "new", o |-> "m", c |-> c ], [ op |-> "new", o |-> "n", c |-> c ] >>
View2(w, s) == << w >>
ModelView == << who, hist >>       \* every call is a state of its own
Init == \E c \in Classy : Start(c, Prefix(c), View2)

Vals(f) == IF f.k = "dyn" THEN << << >> >> ELSE Dom(f)
Next == \E i \in 1..Len(Tables[who]) :
          LET ds == Vals(Tables[who][i]) IN
          \E p, q \in 1..Len(ds) :
             (5 * i + 3 * p + q) % Share = Pick /\
             Go(<< [ op |-> "fill", o |-> "m", v |-> Rich(who, i) ], [ op |-> "fill", o |-> "n", v |-> Rich(who, i) ],
                   [ op |-> "set", o |-> "m", path |-> << i >>, val |-> ds[p] ], [ op |-> "set", o |-> "n", path |-> << i >>, val |-> ds[q] ],
                   [ op |-> "eq", a |-> "m", b |-> "n" ] >>, View2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Eqs == { i \in At : Is(i, "eq") }
ByValue == \A i \in Eqs : hist[i].ret = (hist[i - 2].op.val = hist[i - 1].op.val)
\* what is equal is the same to a peer
EqualMeansSameBytes == \A i \in Eqs :
  hist[i].ret /\ Encodable(who, hist[i - 2].seen) =>
     EncMsg(who, hist[i - 2].seen, DefaultReg).b = EncMsg(who, hist[i - 1].seen, DefaultReg).b
=============================================================================
