-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The codec as a pair of functions over the wire tables.                  *)
(*                                                                         *)
(* Values.  A message is [c |-> class, v |-> fields], fields being a tuple *)
(* aligned with the class's wire table:                                    *)
(*    num, flt, blen, chk   the value's bytes, big-endian                  *)
(*    fix, var              << >> (absent) or << codepoints >>             *)
(*    list                  << >> (absent) or << elements >>               *)
(*    obj                   << >> (absent) or << fields >>                 *)
(*    dyn                   << >> (absent) or << class, fields >>          *)
(*                                                                         *)
(* reg, the checksum registry, is a function from algorithm names to       *)
(* services; tm, the type maps, a function from owners to type tables.     *)
(***************************************************************************)
EXTENDS Schema

(* Toggles that re-introduce a defect, to show that the properties can     *)
(* fail (see MC*.tla); {} in the faithful specification.                   *)
CONSTANT Bug

Absent == << >>

-----------------------------------------------------------------------------
(* Checksum services: [id, alg, impl].  impl names what calc computes. *)
Impls == { "crc16", "crc32", "sum", "const" }
Calc(svc, b) == CASE svc.impl = "crc16" -> IF "oddCrc" \in Bug THEN << 0, 0 >> \o Tail(Tail(Crc16(b \o << 0 >>))) ELSE Crc16(b)
                  [] svc.impl = "crc32" -> Crc32(b)
                  [] svc.impl = "sum"   -> ByteSum(b)
                  [] svc.impl = "const" -> << 18, 52, 86, 120 >>
DefaultReg == [ CRC16    |-> [ id |-> "dflt", alg |-> "CRC16", impl |-> "crc16" ],
                CRC32    |-> [ id |-> "dflt", alg |-> "CRC32", impl |-> "crc32" ],
                SSE_BIN  |-> [ id |-> "dflt", alg |-> "SSE_BIN", impl |-> "sum" ],
                SZSE_BIN |-> [ id |-> "dflt", alg |-> "SZSE_BIN", impl |-> "sum" ] ]

-----------------------------------------------------------------------------
(* Type maps *)
HasKey(t, key) == \E i \in 1..Len(t) : t[i][1] = key
ClassOf(t, key) == t[CHOOSE i \in 1..Len(t) : t[i][1] = key][2]
PutKey(t, key, c) == IF HasKey(t, key)
                     THEN [ i \in 1..Len(t) |-> IF t[i][1] = key THEN << key, c >> ELSE t[i] ]
                     ELSE Append(t, << key, c >>)
DropKey(t, key) == SelectSeq(t, LAMBDA e : e[1] # key)

\* the selector value of a dynamic field, as a type-table key
RECURSIVE Nat31(_)
Nat31(b) == IF b = << >> THEN 0 ELSE Nat31(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
KeyOf(f, val) == IF f.k = "num" THEN
                    IF f.w = 2 /\ val[1] >= 128 THEN NatOf(val) - 65536     \* signed 16 bits
                    ELSE IF f.w = 4 /\ val[1] >= 128 THEN -1 - Nat31(TLCEval([i \in 1..4 |-> 255 - val[i]]))
                    ELSE Nat31(val)
                 ELSE IF val = Absent THEN << >> ELSE val[1]

-----------------------------------------------------------------------------
(* Texts of fixed width *)
EncFix(f, cps) ==
  LET b == Utf8(cps)
      n == IF "midCharacter" \in Bug /\ Len(b) > f.w THEN f.w ELSE CharCut(b, f.w)
      body == SubSeq(b, 1, n)
      pad == Repl(f.pad, f.w - n)
  IN IF f.left THEN pad \o body ELSE body \o pad

RECURSIVE TrimL(_, _), TrimR(_, _)
TrimL(s, p) == IF s # << >> /\ s[1] = p THEN TrimL(Tail(s), p) ELSE s
TrimR(s, p) == IF s # << >> /\ s[Len(s)] = p THEN TrimR(SubSeq(s, 1, Len(s) - 1), p) ELSE s
Trim(t, pad, left) == IF left THEN TrimL(t, pad) ELSE TrimR(t, pad)
DecFix(f, b) == IF "trimBoth" \in Bug THEN TrimL(TrimR(Utf8Dec(b), f.pad), f.pad)
                ELSE IF f.left THEN TrimL(Utf8Dec(b), f.pad) ELSE TrimR(Utf8Dec(b), f.pad)

TextOf(val) == IF val = Absent THEN << >> ELSE val[1]

-----------------------------------------------------------------------------
(* A message can be encoded iff every required nested message is there *)
RECURSIVE Encodable(_, _)
EncodableF(f, val) ==
  CASE f.k = "obj" -> val # Absent /\ Encodable(f.c, val[1])
    [] f.k = "dyn" -> val = Absent \/ Encodable(val[1], val[2])
    [] f.k = "list" /\ f.el.k = "obj" -> val = Absent \/ \A i \in 1..Len(val[1]) : Encodable(f.el.c, val[1][i][1])
    [] OTHER -> TRUE
Encodable(c, fv) == \A i \in 1..Len(Tables[c]) : EncodableF(Tables[c][i], fv[i])

(* Encoding: the bytes, and the fields afterwards (length and checksum are  *)
(* computed on the way)                                                     *)
RECURSIVE EncMsg(_, _, _)
EncF(f, val, reg) ==
  CASE f.k \in {"num", "flt"} -> Order(val, f.e)
    [] f.k = "fix" -> EncFix(f, TextOf(val))
    [] f.k = "var" -> LET b == Utf8(TextOf(val)) IN Order(NatBE(Len(b), f.w), f.e) \o b
    [] f.k = "list" ->
         IF val = Absent THEN Zeros(f.w)
         ELSE LET el == val[1]
                  es == CASE f.el.k \in {"num", "flt"} -> TLCEval([ i \in 1..Len(el) |-> Order(el[i], f.el.e) ])
                          [] f.el.k = "fix" -> TLCEval([ i \in 1..Len(el) |-> EncFix(f.el, TextOf(el[i])) ])
                          [] f.el.k = "var" -> TLCEval([ i \in 1..Len(el) |->
                                 LET b == Utf8(TextOf(el[i])) IN Order(NatBE(Len(b), f.el.w), f.el.e) \o b ])
                          [] f.el.k = "obj" -> TLCEval([ i \in 1..Len(el) |-> EncMsg(f.el.c, el[i][1], reg).b ])
              IN Order(NatBE(Len(el), f.w), f.e) \o Flat(es)
    [] f.k = "obj" -> EncMsg(f.c, val[1], reg).b
    [] f.k = "dyn" -> IF val = Absent THEN << >> ELSE EncMsg(val[1], val[2], reg).b

Computed == { "blen", "chk" }

EncMsg(c, fv, reg) ==
  LET t == Tables[c]
      p0 == TLCEval([ i \in 1..Len(t) |-> IF t[i].k \in Computed THEN << >> ELSE EncF(t[i], fv[i], reg) ])
  IN IF \A i \in 1..Len(t) : t[i].k \notin Computed THEN [ b |-> Flat(p0), v |-> fv ]
     ELSE
     LET blenOf(i) == Len(Flat(SubSeq(p0, i + 1, Len(t))))
         v1 == TLCEval([ i \in 1..Len(t) |-> IF t[i].k = "blen" /\ ("keepsLength" \notin Bug \/ fv[i] = Zeros(t[i].w))
                                             THEN NatBE(blenOf(i), t[i].w) ELSE fv[i] ])
         p1 == TLCEval([ i \in 1..Len(t) |-> IF t[i].k = "blen" THEN Order(v1[i], t[i].e) ELSE p0[i] ])
         chkOf(i) == IF t[i].alg \in DOMAIN reg THEN Calc(reg[t[i].alg], Flat(SubSeq(p1, 1, i - 1))) ELSE v1[i]
         v2 == TLCEval([ i \in 1..Len(t) |-> IF t[i].k = "chk" THEN chkOf(i) ELSE v1[i] ])
         p2 == TLCEval([ i \in 1..Len(t) |-> IF t[i].k = "chk" THEN Order(v2[i], t[i].e) ELSE p1[i] ])
     IN [ b |-> Flat(p2), v |-> v2 ]

-----------------------------------------------------------------------------
(* Decoding at offset p of bytes b: [ok, p, v, why]; a failed one says       *)
(* whether bytes are missing ("short") or the selector is unknown ("type")   *)
Fail(p) == [ ok |-> FALSE, p |-> p, v |-> << >>, why |-> "short" ]
Unknown(p) == [ ok |-> FALSE, p |-> p, v |-> << >>, why |-> "type" ]
Done(p, v) == [ ok |-> TRUE, p |-> p, v |-> v, why |-> "" ]

RECURSIVE DecMsg(_, _, _, _)
DecVar(f, b, p) ==
  IF p + f.w > Len(b) THEN Fail(p)
  ELSE LET lb == Order(Slice(b, p, p + f.w), f.e)
           n  == IF f.w = 4 /\ lb[1] >= 128 THEN 0 ELSE NatOf(lb)
           q  == p + f.w
       IN IF n > Len(b) - q THEN Fail(p)
          ELSE Done(q + n, IF n = 0 THEN Absent ELSE << Utf8Dec(Slice(b, q, q + n)) >>)

DecEl(el, b, p, tm) ==
  CASE el.k = "var" -> LET r == DecVar(el, b, p) IN
                       IF r.ok /\ r.v = Absent THEN Done(r.p, IF "dropEmpty" \in Bug THEN << << 63 >> >> ELSE << << >> >>) ELSE r
    [] el.k = "obj" -> LET r == DecMsg(el.c, b, p, tm) IN IF r.ok THEN Done(r.p, << r.v >>) ELSE r

DecBlock(el, b, p, tm, n) ==
  LET step(acc, i) == IF ~acc.ok THEN acc
                      ELSE LET r == DecEl(el, b, acc.p, tm) IN
                           IF r.ok THEN Done(r.p, Append(acc.v, r.v)) ELSE r
  IN FoldLeft(step, Done(p, << >>), TLCEval([ i \in 1..n |-> i ]))

DecElements(el, b, p, tm, n) ==
  IF el.k \in {"num", "flt", "fix"} THEN
     IF p + n * el.w > Len(b) THEN Fail(p)
     ELSE Done(p + n * el.w,
               IF el.k = "fix" THEN TLCEval([ i \in 1..n |-> << DecFix(el, Slice(b, p + (i - 1) * el.w, p + i * el.w)) >> ])
               ELSE TLCEval([ i \in 1..n |-> Order(Slice(b, p + (i - 1) * el.w, p + i * el.w), el.e) ]))
  ELSE \* in blocks, so that long lists stay affordable
     LET nb == (n + 255) \div 256
         step(acc, k) == IF ~acc.ok THEN acc
                         ELSE LET r == DecBlock(el, b, acc.p, tm, IF k < nb THEN 256 ELSE n - 256 * (nb - 1)) IN
                              IF r.ok THEN Done(r.p, Append(acc.v, r.v)) ELSE r
         r == FoldLeft(step, Done(p, << >>), TLCEval([ k \in 1..nb |-> k ]))
     IN IF r.ok THEN Done(r.p, Flat(r.v)) ELSE r

DecF(c, i, b, p, sofar, tm) ==
  LET f == Tables[c][i] IN
  CASE f.k \in {"num", "flt", "blen", "chk"} ->
         IF p + f.w > Len(b) THEN IF "zeroFill" \in Bug /\ p < Len(b) THEN Done(Len(b), Zeros(f.w)) ELSE Fail(p)
         ELSE Done(p + f.w, Order(Slice(b, p, p + f.w), f.e))
    [] f.k = "fix" ->
         IF p + f.w > Len(b) THEN Fail(p) ELSE Done(p + f.w, << DecFix(f, Slice(b, p, p + f.w)) >>)
    [] f.k = "var" -> DecVar(f, b, p)
    [] f.k = "list" ->
         IF p + f.w > Len(b) THEN Fail(p)
         ELSE LET lb == Order(Slice(b, p, p + f.w), f.e)
                  n == IF f.w = 4 /\ lb[1] >= 128 THEN 0 ELSE NatOf(lb) IN
              IF n = 0 THEN Done(p + f.w, Absent)
              ELSE IF n > Len(b) THEN Fail(p)      \* every element has at least one byte
              ELSE LET r == DecElements(f.el, b, p + f.w, tm, n) IN
                   IF r.ok THEN Done(r.p, << r.v >>) ELSE r
    [] f.k = "obj" -> LET r == DecMsg(f.c, b, p, tm) IN IF r.ok THEN Done(r.p, << r.v >>) ELSE r
    [] f.k = "dyn" ->
         LET j == IndexOf(c, f.sel)
             key == KeyOf(Tables[c][j], sofar[j])
         IN IF ~HasKey(tm[c], key) THEN Unknown(p)
            ELSE LET k == ClassOf(tm[c], key)
                     r == DecMsg(k, b, p, tm)
                 IN IF r.ok THEN Done(r.p, << k, r.v >>) ELSE r

DecMsg(c, b, p, tm) ==
  LET step(acc, i) == IF ~acc.ok THEN acc
                      ELSE LET r == DecF(c, i, b, acc.p, acc.v, tm) IN
                           IF r.ok THEN Done(r.p, Append(acc.v, r.v)) ELSE r
  IN FoldLeft(step, Done(p, << >>), TLCEval([ i \in 1..Len(Tables[c]) |-> i ]))

-----------------------------------------------------------------------------
(* A new message *)
InitF(f) == IF f.k \in {"num", "flt", "blen", "chk"} THEN Zeros(f.w) ELSE Absent
InitV(c) == TLCEval([ i \in 1..Len(Tables[c]) |-> InitF(Tables[c][i]) ])

(* What a message is expected to come back as: text loses the padding of    *)
(* its padded side and what does not fit its width                          *)
RECURSIVE Back(_, _), BackF(_, _)
BackF(f, val) ==
  CASE f.k = "fix" -> << DecFix(f, EncFix(f, TextOf(val))) >>
    [] f.k = "var" -> IF TextOf(val) = << >> THEN Absent ELSE val
    [] f.k = "list" ->
         IF val = Absent \/ val[1] = << >> THEN Absent
         ELSE << TLCEval([ i \in 1..Len(val[1]) |->
                   CASE f.el.k = "var" -> << TextOf(val[1][i]) >>
                     [] f.el.k = "obj" -> << Back(f.el.c, val[1][i][1]) >>
                     [] OTHER -> BackF(f.el, val[1][i]) ]) >>
    [] f.k = "obj" -> << Back(f.c, val[1]) >>
    [] f.k = "dyn" -> IF val = Absent THEN Absent ELSE << val[1], Back(val[1], val[2]) >>
    [] OTHER -> val
Back(c, fv) == TLCEval([ i \in 1..Len(Tables[c]) |-> BackF(Tables[c][i], fv[i]) ])

(* Equality up to absent = empty, for texts and lists *)
RECURSIVE SameV(_, _, _)
SameF(f, x, y) ==
  \/ x = y
  \/ CASE f.k \in {"fix", "var"} -> TextOf(x) = TextOf(y)
       [] f.k = "list" ->
            LET ex == IF x = Absent THEN << >> ELSE x[1]
                ey == IF y = Absent THEN << >> ELSE y[1] IN
            /\ Len(ex) = Len(ey)
            /\ \A i \in 1..Len(ex) :
                 \/ ex[i] = ey[i]
                 \/ f.el.k \in {"fix", "var"} /\ TextOf(ex[i]) = TextOf(ey[i])
                 \/ f.el.k = "obj" /\ ex[i] # Absent /\ ey[i] # Absent /\ SameV(f.el.c, ex[i][1], ey[i][1])
       [] f.k = "obj" -> x # Absent /\ y # Absent /\ SameV(f.c, x[1], y[1])
       [] f.k = "dyn" -> x # Absent /\ y # Absent /\ x[1] = y[1] /\ SameV(x[1], x[2], y[2])
       [] OTHER -> FALSE
SameV(c, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameF(Tables[c][i], x[i], y[i])

(* fields that SameV finds different: for diagnostics and per-kind aspects *)
DiffFields(c, x, y) == IF Len(x) # Len(y) THEN { 0 } ELSE { i \in 1..Len(x) : ~SameF(Tables[c][i], x[i], y[i]) }

(* can the value be carried?  (the quantifier of the round-trip property)   *)
(* - a frame's or extended message's selector names the class of its part   *)
(* - texts are as long as their prefix can express                          *)
RECURSIVE Carriable(_, _, _)
CarriableF(c, i, fv, tm) ==
  LET f == Tables[c][i] val == fv[i] IN
  CASE f.k = "var" -> f.w = 4 \/ Len(Utf8(TextOf(val))) < 65536
    [] f.k = "list" ->
         \/ val = Absent
         \/ /\ f.w = 4 \/ Len(val[1]) < 65536
            /\ CASE f.el.k = "obj" -> \A j \in 1..Len(val[1]) : val[1][j] # Absent /\ Carriable(f.el.c, val[1][j][1], tm)
                 [] f.el.k = "var" -> \A j \in 1..Len(val[1]) : Len(Utf8(TextOf(val[1][j]))) < 65536
                 [] OTHER -> TRUE
    [] f.k = "obj" -> val # Absent /\ Carriable(f.c, val[1], tm)
    [] f.k = "dyn" ->
         LET j == IndexOf(c, f.sel)
             sf == Tables[c][j]
             key == KeyOf(sf, IF sf.k = "fix" THEN BackF(sf, fv[j]) ELSE fv[j]) IN
         /\ val # Absent
         /\ HasKey(tm[c], key) /\ ClassOf(tm[c], key) = val[1]
         /\ Carriable(val[1], val[2], tm)
    [] OTHER -> TRUE
Carriable(c, fv, tm) == Len(fv) = Len(Tables[c]) /\ \A i \in 1..Len(Tables[c]) : CarriableF(c, i, fv, tm)
=============================================================================
