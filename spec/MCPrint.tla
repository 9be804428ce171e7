------------------------------ MODULE MCPrint ------------------------------
(***************************************************************************)
(* The printed form (C21): for every class, every boundary value of every  *)
(* field, on a full and on a new message.                                  *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects, Share, Pick

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Prefix(c) == << [ op |-> "new", o |-> "m", c |-> c ], [ op |-> "str", o |-> "m" ] >>
View2(w, s) == << w >>
ModelView == << who, hist >>       \* every call is a state of its own
Init == \E c \in Classy : Start(c, Prefix(c), View2)

\* floats only as far as FloatTable goes
Vals(f) == CASE f.k = "dyn" -> << << >> >>
             [] f.k = "flt" -> SelectSeq(Dom(f), KnownFloat)
             [] f.k = "list" /\ f.el.k = "flt" -> << << >>, << << >> >>, << SelectSeq(Dom(f.el), KnownFloat) >> >>
             [] OTHER -> Dom(f)
\* a full message with floats that can be printed
Plain(c, n) == TLCEval([ i \in 1..Len(Tables[c]) |->
   LET f == Tables[c][i] IN
   CASE f.k = "flt" -> Fill(f.w, 0) [] f.k = "list" /\ f.el.k = "flt" -> << << Fill(f.el.w, 0) >> >> [] OTHER -> Rich(c, n)[i] ])
Next ==
  \/ Go(<< [ op |-> "fill", o |-> "m", v |-> Plain(who, 1) ], [ op |-> "str", o |-> "m" ] >>, View2)
  \/ Go(<< [ op |-> "fill", o |-> "m", v |-> Plain(who, 2) ], [ op |-> "str", o |-> "m" ] >>, View2)
  \/ \E i \in 1..Len(Tables[who]) :
          LET ds == Vals(Tables[who][i]) IN
          \E n \in 1..Len(ds) : \E b \in 1..2 :
             (2 * (i + n) + b) % Share = Pick /\
             Go(<< [ op |-> "fill", o |-> "m", v |-> IF b = 1 THEN Plain(who, 1) ELSE InitV(who) ],
                   [ op |-> "set", o |-> "m", path |-> << i >>, val |-> ds[n] ], [ op |-> "str", o |-> "m" ] >>, View2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Strs == { i \in At : Is(i, "str") }
\* is needle at position i or later in text t?  0 if not, otherwise what follows it
IndexFrom(t, needle, from) ==
  LET P == { i \in from..(Len(t) - Len(needle) + 1) : SubSeq(t, i, i + Len(needle) - 1) = needle } IN
  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
\* every field is named, in order
NamesEveryField == \A i \in Strs :
  LET t == hist[i].ret
      step(p, j) == IF p = 0 THEN 0 ELSE
                    LET n == Cps(Tables[who][j].n) \o << 61 >> q == IndexFrom(t, n, p) IN IF q = 0 THEN 0 ELSE q + Len(n)
  IN FoldLeft(step, 1, TLCEval([ j \in 1..Len(Tables[who]) |-> j ])) > 0
\* the type comes first
NamesTheType == \A i \in Strs : IsPrefix(Cps(Label(who)) \o << 32, 91 >>, hist[i].ret) /\ hist[i].ret[Len(hist[i].ret)] = 93
\* scalar values appear in decimal, texts as they are
ShowsTheValue == \A i \in Strs : Is(i - 1, "set") =>
  LET j == hist[i - 1].op.path[1]
      f == Tables[who][j]
      val == hist[i - 1].op.val
      shown == CASE f.k = "num" -> Cps(Decimal(val)) [] f.k \in {"fix", "var"} -> IF val = Absent THEN Null ELSE val[1] [] OTHER -> << >>
  IN f.k \in {"num", "fix", "var"} => IndexFrom(hist[i].ret, Cps(f.n) \o << 61 >> \o shown, 1) > 0
=============================================================================
