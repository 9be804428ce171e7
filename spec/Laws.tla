-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties of encoded frames, stated on bytes and field values      *)
(* alone, independently of how FinProto computes an encoding.  Used by the *)
(* trace validation and by the bounded models.                             *)
(***************************************************************************)
EXTENDS Wire

\* fields other than the computed ones
Given(c, v) == TLCEval([ i \in 1..Len(v) |-> IF Tables[c][i].k \in Computed THEN << >> ELSE v[i] ])

RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE q[1] + Sum(Tail(q))

\* offset of the (fixed-width) field i of class c
Offset(c, i) == Sum(TLCEval([ j \in 1..(i - 1) |-> Tables[c][j].w ]))

Only(kind, c) == CHOOSE i \in FieldsOfKind(c, kind) : TRUE
WidthAfter(c) == IF FieldsOfKind(c, "chk") = {} THEN 0 ELSE Tables[c][Only("chk", c)].w

\* the length header of the encoding app, and of the message afterwards, is the number of body bytes
LenOk(c, app, post) ==
  LET i == Only("blen", c)
      f == Tables[c][i]
      o == Offset(c, i)
      n == Len(app) - o - f.w - WidthAfter(c)
  IN /\ n >= 0
     /\ Order(Slice(app, o, o + f.w), f.e) = NatBE(n, f.w)
     /\ post[i] = NatBE(n, f.w)

\* the trailer is the registered service's checksum of the rest of the frame, or what the caller stored
ChkOk(c, app, pre, post, reg) ==
  LET i == Only("chk", c)
      f == Tables[c][i]
      n == Len(app) - f.w
      want == IF f.alg \in DOMAIN reg THEN Calc(reg[f.alg], Slice(app, 0, n)) ELSE pre[i]
  IN n >= 0 /\ Order(Slice(app, n, n + f.w), f.e) = want /\ post[i] = want
=============================================================================
