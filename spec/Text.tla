-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The printed form of a message, as code points:                          *)
(*    Name [field=value, field=value]                                      *)
(* numbers in signed decimal, absent values as null, lists as [a, b].      *)
(* Floats are covered for the values listed in FloatText only.             *)
(***************************************************************************)
EXTENDS Wire

DecimalCps(b) == Cps(Decimal(b))

FloatTable ==
  << << <<0,0,0,0>>, "0.0" >>, << <<63,128,0,0>>, "1.0" >>, << <<191,128,0,0>>, "-1.0" >>,
     << <<63,192,0,0>>, "1.5" >>, << <<194,246,0,0>>, "-123.0" >>, << <<62,128,0,0>>, "0.25" >>,
     << <<0,0,0,0,0,0,0,0>>, "0.0" >>, << <<63,240,0,0,0,0,0,0>>, "1.0" >>,
     << <<191,240,0,0,0,0,0,0>>, "-1.0" >>, << <<63,248,0,0,0,0,0,0>>, "1.5" >>,
     << <<192,94,192,0,0,0,0,0>>, "-123.0" >>, << <<63,208,0,0,0,0,0,0>>, "0.25" >> >>
KnownFloat(b) == \E i \in 1..Len(FloatTable) : FloatTable[i][1] = b
FloatCps(b) == IF KnownFloat(b) THEN Cps(FloatTable[CHOOSE i \in 1..Len(FloatTable) : FloatTable[i][1] = b][2])
               ELSE << 63 >>      \* not compared, see Printable1

\* simple class name: what follows the last "_"
RECURSIVE LastUnderscore(_, _)
LastUnderscore(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = "_" THEN i ELSE LastUnderscore(s, i - 1)
Label(c) == SubSeq(c, LastUnderscore(c, Len(c)) + 1, Len(c))

Null == Cps("null")
Comma == << 44, 32 >>

Joined(ss) == Flat(TLCEval([ i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE Comma \o ss[i] ]))

RECURSIVE Printed(_, _), PrintedF(_, _)
PrintedF(f, val) ==
  CASE f.k \in {"num", "blen", "chk"} -> DecimalCps(val)
    [] f.k = "flt" -> FloatCps(val)
    [] f.k \in {"fix", "var"} -> IF val = Absent THEN Null ELSE val[1]
    [] f.k = "list" ->
         IF val = Absent THEN Null
         ELSE << 91 >> \o Joined(TLCEval([ i \in 1..Len(val[1]) |->
                 IF f.el.k = "obj" THEN IF val[1][i] = Absent THEN Null ELSE Printed(f.el.c, val[1][i][1])
                 ELSE PrintedF(f.el, val[1][i]) ])) \o << 93 >>
    [] f.k = "obj" -> IF val = Absent THEN Null ELSE Printed(f.c, val[1])
    [] f.k = "dyn" -> IF val = Absent THEN Null ELSE Printed(val[1], val[2])
Printed(c, fv) ==
  Cps(Label(c)) \o << 32, 91 >> \o
  Joined(TLCEval([ i \in 1..Len(fv) |-> Cps(Tables[c][i].n) \o << 61 >> \o PrintedF(Tables[c][i], fv[i]) ]))
  \o << 93 >>

(* are all floats in the message in FloatTable? *)
RECURSIVE Printable1(_, _)
PrintableF(f, val) ==
  CASE f.k = "flt" -> KnownFloat(val)
    [] f.k = "list" -> val = Absent \/ \A i \in 1..Len(val[1]) :
         CASE f.el.k = "flt" -> KnownFloat(val[1][i])
           [] f.el.k = "obj" -> val[1][i] = Absent \/ Printable1(f.el.c, val[1][i][1])
           [] OTHER -> TRUE
    [] f.k = "obj" -> val = Absent \/ Printable1(f.c, val[1])
    [] f.k = "dyn" -> val = Absent \/ Printable1(val[1], val[2])
    [] OTHER -> TRUE
Printable1(c, fv) == \A i \in 1..Len(fv) : PrintableF(Tables[c][i], fv[i])
=============================================================================
