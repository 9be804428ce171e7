------------------------------ MODULE Samples ------------------------------
(***************************************************************************)
(* Concrete values for the bounded models, derived from the wire tables:   *)
(*   Rich(c, n)     every field filled, different bytes everywhere; n       *)
(*                  varies the contents, and the class of a dynamic part    *)
(*   Hollow(c, n)   no optional content: empty lists, absent texts          *)
(*   Dom(f)         boundary values of a field                              *)
(***************************************************************************)
EXTENDS Wire

SelVal(f, key) == IF f.k = "num" THEN NatBE(key, f.w) ELSE << key >>

Letters(w, n) == TLCEval([ j \in 1..w |-> 65 + ((7 * n + 3 * j) % 26) ])
Bytes(w, n)   == TLCEval([ j \in 1..w |-> (37 * n + 11 * j + 5) % 256 ])
Flt(w, n)     == << 64 >> \o Bytes(w - 1, n)

RECURSIVE Rich(_, _), RichF(_, _)
RichEl(el, n) == IF el.k = "obj" THEN << Rich(el.c, n) >> ELSE RichF(el, n)
RichF(f, n) ==
  CASE f.k \in {"num", "blen", "chk"} -> Bytes(f.w, n)
    [] f.k = "flt" -> Flt(f.w, n)
    [] f.k = "fix" -> << Letters(f.w, n) >>
    [] f.k = "var" -> << Letters(2, n) \o << 233 >> >>
    [] f.k = "list" -> << << RichEl(f.el, n), RichEl(f.el, n + 1) >> >>
    [] f.k = "obj" -> << Rich(f.c, n + 5) >>
    [] OTHER -> Absent
TypeOfN(c, n) == DefaultTypes[c][1 + (n % Len(DefaultTypes[c]))]

\* a value of class c whose dynamic part is given (d: its class and fields, key: its selector)
WithPart(c, v, key, d) ==
  LET i == CHOOSE i \in FieldsOfKind(c, "dyn") : TRUE
      j == IndexOf(c, Tables[c][i].sel)
  IN TLCEval([ v EXCEPT ![i] = d, ![j] = SelVal(Tables[c][j], key) ])

Rich(c, n) ==
  LET v == TLCEval([ i \in 1..Len(Tables[c]) |-> RichF(Tables[c][i], n + 3 * i) ]) IN
  IF c \notin Owners THEN v
  ELSE LET t == TypeOfN(c, n) IN WithPart(c, v, t[1], << t[2], Rich(t[2], n + 2) >>)

RECURSIVE Hollow(_, _)
HollowF(f, n) ==
  CASE f.k \in {"num", "flt", "blen", "chk"} -> Zeros(f.w)
    [] f.k = "obj" -> << Hollow(f.c, n) >>
    [] OTHER -> Absent
Hollow(c, n) ==
  LET v == TLCEval([ i \in 1..Len(Tables[c]) |-> HollowF(Tables[c][i], n) ]) IN
  IF c \notin Owners THEN v
  ELSE LET t == TypeOfN(c, n) IN WithPart(c, v, t[1], << t[2], Hollow(t[2], n) >>)

\* boundary values of a field
RECURSIVE Dom(_)
Fill(w, x) == TLCEval([ j \in 1..w |-> x ])
Dom(f) ==
  CASE f.k \in {"num", "blen", "chk"} ->
         << Fill(f.w, 0), Fill(f.w, 255), << 128 >> \o Fill(f.w - 1, 0), << 127 >> \o Fill(f.w - 1, 255),
            TLCEval([ j \in 1..f.w |-> j ]), TLCEval([ j \in 1..f.w |-> 127 + j ]) >>
    [] f.k = "flt" -> << Fill(f.w, 0), << 128 >> \o Fill(f.w - 1, 0), << 127 >> \o << IF f.w = 4 THEN 128 ELSE 240 >> \o Fill(f.w - 2, 0),
                         << 127 >> \o << IF f.w = 4 THEN 192 ELSE 248 >> \o Fill(f.w - 2, 0), Flt(f.w, 3) >>
    [] f.k = "fix" ->
         << << >>, << << >> >>, << Letters(f.w, 1) >>, << Letters(f.w + 3, 2) >>,
            << IF f.w > 1 THEN Letters(f.w - 1, 3) ELSE << >> >>,
            << Letters(IF f.w > 1 THEN f.w - 2 ELSE 0, 4) \o << 20013, 65 >> >>,
            << << f.pad, 66, f.pad >> >>, << Fill(f.w, f.pad) >>, << << 32, 48, 67 >> >>, << Fill(f.w, 8364) >> >>
    [] f.k = "var" -> << << >>, << << >> >>, << << 65 >> >>, << << 233, 20013, 128512 >> >>, << Letters(128, 1) >>, << << 0, 32, 48 >> >>,
                         << Letters(256, 2) >> >>
    [] f.k = "list" -> << << >>, << << >> >> >> \o
         (IF f.el.k = "obj"
          THEN << << << << Hollow(f.el.c, 1) >> >> >>, << << << Rich(f.el.c, 1) >>, << Hollow(f.el.c, 2) >>, << Rich(f.el.c, 3) >> >> >> >>
          ELSE LET ds == SelectSeq(Dom(f.el), LAMBDA x : x # Absent) IN << << << ds[1] >> >>, << ds >>, << ds \o ds >> >>)
    [] f.k = "obj" -> << << Rich(f.c, 1) >>, << Hollow(f.c, 1) >>, << Rich(f.c, 4) >> >>
    [] OTHER -> << >>
=============================================================================
