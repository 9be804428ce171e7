------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the real library a         *)
(* behaviour of FinProto?  Each line of the trace is one public call with   *)
(* its outcome and the observable state after it.  The line's call is       *)
(* replayed on the specification (Eff) and every component of the observed  *)
(* outcome is compared with the specified one.  A difference is reported    *)
(* under the name of the aspect it concerns; then the specification's state *)
(* is set to what was observed, so that the rest of the trace is checked    *)
(* too.  Watch selects the aspects that are reported.                       *)
(***************************************************************************)
EXTENDS FinProto, Laws, Json, IOUtils

CONSTANT Watch

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES line, lib, memoE, memoD, nbad

vars == << line, lib, memoE, memoD, nbad >>

Has(e, k) == k \in DOMAIN e

-----------------------------------------------------------------------------
\* The set of aspects in which event e differs from the specification.
If(cond, asp) == IF cond THEN {asp} ELSE {}

\* the ghost entry that a decode of class c at the read position concerns
EntriesAt(b, c) == { i \in 1..Len(b.sent) : b.sent[i].at = b.r /\ b.sent[i].c = c }

Unlinked == { "patch", "scribble", "clear", "release", "write", "seek", "compact", "buf", "set", "add", "drop", "fill" }

\* objects and buffers that the call has no business with
Others(e) ==
  LET tgt == IF Has(e, "o") THEN {e.o} ELSE {}
      tb  == IF Has(e, "b") THEN {e.b} ELSE {}
      ho  == \E o \in (DOMAIN e.H \cap DOMAIN lib.heap) \ tgt :
                e.H[o].c # lib.heap[o].c \/ e.H[o].v # lib.heap[o].v
      bo  == \E b \in (DOMAIN e.B \cap DOMAIN lib.bufs) \ tb :
                e.B[b].d # lib.bufs[b].d \/ e.B[b].r # lib.bufs[b].r \/ e.B[b].ref # lib.bufs[b].ref
      \* a change of one part of a message that shows in another part
      inner == e.op \in {"set", "add", "drop"} /\ e.ok
               /\ LET c == lib.heap[e.o].c  want == Eff(lib, e).s.heap[e.o].v IN
                  e.H[e.o].v # want /\ Reaches(c, e.H[e.o].v, e.path) /\ SetAt(c, e.H[e.o].v, e.path, GetAt(c, want, e.path)) # want
  IN If(ho \/ inner, "others") \cup If(bo, "bufothers")
     \cup If((e.op \in Unlinked /\ (ho \/ bo)) \/ (e.op \in {"enc", "eq", "str"} /\ bo), "unlinked")

\* a call on a buffer that is not about messages: the buffer is as specified
BufAs(e, x, asp) == If(e.B[e.b].d # x.s.bufs[e.b].d \/ e.B[e.b].r # x.s.bufs[e.b].r \/ e.B[e.b].ref # 1, asp)

\* The encoding of a message as a sequence of << kind of field, bytes >>
RECURSIVE Pieces(_, _)
PiecesF(f, val) ==
  CASE f.k = "list" ->
         << << "count", EncF(f, IF val = Absent THEN Absent ELSE << << >> >>, DefaultReg) >> >>
         \o (IF val = Absent THEN << >>
             ELSE Flat(TLCEval([ i \in 1..Len(val[1]) |->
                    IF f.el.k = "obj" THEN Pieces(f.el.c, val[1][i][1])
                    ELSE IF f.el.k = "var" THEN << << "var", EncF(f.el, val[1][i], DefaultReg) >> >>
                    ELSE << << f.el.k, EncF(f.el, val[1][i], DefaultReg) >> >> ])))
    [] f.k = "obj" -> Pieces(f.c, val[1])
    [] f.k = "dyn" -> IF val = Absent THEN << >> ELSE Pieces(val[1], val[2])
    [] f.k \in Computed -> << << f.k, Zeros(f.w) >> >>
    [] OTHER -> << << f.k, EncF(f, val, DefaultReg) >> >>
Pieces(c, fv) == Flat(TLCEval([ i \in 1..Len(fv) |-> PiecesF(Tables[c][i], fv[i]) ]))

\* which kind of field does byte i (0-based) of the encoding belong to?
RECURSIVE KindAt(_, _)
KindAt(ps, i) == IF ps = << >> THEN "end"
                 ELSE IF i < Len(ps[1][2]) THEN ps[1][1] ELSE KindAt(Tail(ps), i - Len(ps[1][2]))

\* what is wrong with the appended bytes: the first difference outside the computed fields
DiffAspects(c, v, app, want) ==
  LET n  == IF Len(app) < Len(want) THEN Len(app) ELSE Len(want)
      ps == Pieces(c, v)
      ds == { i \in 1..n : app[i] # want[i] /\ KindAt(ps, i - 1) \notin Computed }
      k  == IF ds = {} THEN KindAt(ps, n) ELSE KindAt(ps, (CHOOSE i \in ds : \A j \in ds : i <= j) - 1)
  IN If((ds # {} \/ Len(app) # Len(want)) /\ k = "fix", "enc.fix")
     \cup If((ds # {} /\ k \in {"var", "count"}) \/ Len(app) # Len(want), "enc.list")

CheckEnc(e, x) ==
  LET m    == lib.heap[e.o]
      c    == m.c
      b0   == lib.bufs[e.b]
      b1   == e.B[e.b]
      grew == Len(b1.d) >= Len(b0.d)
      app  == SubSeq(b1.d, Len(b0.d) + 1, Len(b1.d))
      post == e.H[e.o].v
      key  == << c, Given(c, m.v), lib.reg, IF lib.reg = DefaultReg THEN << >> ELSE m.v >>
  IN If(e.ok # x.ok, "enc.ok")
     \cup If(b1.ref # b0.ref, "enc.ref")
     \cup If(Given(c, post) # Given(c, m.v), "enc.pure")
     \cup If(~grew \/ SubSeq(b1.d, 1, Len(b0.d)) # b0.d \/ b1.r # b0.r, "enc.append")
     \cup (IF ~(e.ok /\ x.ok /\ grew) THEN {} ELSE
           If(app # x.ret, "enc.bytes")
           \cup If(FieldsOfKind(c, "blen") # {} /\ ~LenOk(c, app, post), "enc.len")
           \cup If(FieldsOfKind(c, "chk") # {} /\ ~ChkOk(c, app, m.v, post, lib.reg), "enc.chk")
           \cup If(key \in DOMAIN memoE /\ memoE[key] # app, "enc.same")
           \cup (IF app = x.ret THEN {} ELSE DiffAspects(c, m.v, app, x.ret)))
     \cup If(m.org # Absent /\ lib.reg = DefaultReg /\ (~e.ok \/ ~grew \/ app # m.org[1]), "relay")

\* megabytes that reading this input may take at most, however it is done: 64, and 1 more for every kilobyte
Generous(b) == 64 + (Len(b.d) - b.r) \div 1024

\* what the outcome of a decode may depend on: class, bytes, registrations
DecKey(e, x) ==
  LET c == lib.heap[e.o].c
      b0 == lib.bufs[e.b] IN
  << c, Slice(b0.d, b0.r, x.s.bufs[e.b].r), lib.tm[IF c \in Owners THEN c ELSE "sse_SseBinary"] >>

CheckDec(e, x) ==
  LET m    == lib.heap[e.o]
      c    == m.c
      b0   == lib.bufs[e.b]
      b1   == e.B[e.b]
      seen == e.o \in DOMAIN e.H            \* a hidden decode: nobody looked at the message
      post == IF seen THEN e.H[e.o].v ELSE x.s.heap[e.o].v
      ents == EntriesAt(b0, c)
      ent  == b0.sent[CHOOSE i \in ents : TRUE]
      carried == ents # {} /\ Carriable(c, ent.v, lib.tm)
      back == Back(c, ent.v)
      key  == DecKey(e, x)
      diff == DiffFields(c, post, back)
      lost == ~e.ok \/ b1.r # b0.r + ent.len
      KindOf(i) == IF i = 0 THEN "none" ELSE Tables[c][i].k
  IN If(b1.d # b0.d, "dec.ro")
     \cup If(b1.ref # b0.ref, "dec.ref")
     \cup If(b1.r > Len(b1.d) \/ b1.r < b0.r, "dec.over")
     \cup If(e.err, "dec.err")
     \cup If(e.mem > Generous(b0), "dec.alloc")
     \cup (IF carried /\ seen
           THEN If(~e.ok, "dec.ok")
                \cup If(lost, "dec.take")
                \cup If(e.ok /\ diff # {}, IF ent.src = "peer" THEN "dec.peer" ELSE "dec.rt")
                \cup If(e.ok /\ ent.src = "peer" /\ b1.r # b0.r + ent.len, "dec.peer")
                \cup If(~e.ok /\ ent.src = "peer", "relay")
                \cup If(lost \/ \E i \in diff : KindOf(i) \in {"list", "var", "obj", "dyn", "none"}, "dec.list")
                \cup If(lost \/ \E i \in diff : KindOf(i) \in {"fix", "none"}, "dec.fix")
           ELSE {})
     \cup (IF x.ok
           THEN If(~e.ok \/ b1.r # x.s.bufs[e.b].r \/ ~SameV(c, post, x.s.heap[e.o].v), "dec.any")
           ELSE If(e.ok, "dec.accept")
                \cup If(x.ret = "type" /\ (e.ok \/ e.ex # "IllegalArgumentException"),
                        IF c \in Frames THEN "types.frame" ELSE "types.ext")
                \cup If(x.ret = "type" /\ c \in Frames /\ e.ok, "types.ext"))
     \cup If(seen /\ x.ok /\ key \in DOMAIN memoD /\ memoD[key] # << e.ok, b1.r - b0.r, IF e.ok THEN post ELSE << >> >>, "dec.same")
     \cup (LET dyns == FieldsOfKind(c, "dyn") IN
           IF dyns = {} \/ ~x.ok \/ ~seen THEN {}
           ELSE LET i == CHOOSE i \in dyns : TRUE
                    want == x.s.heap[e.o].v[i][1] IN
                If(~e.ok \/ post[i] = Absent \/ post[i][1] # want, IF c \in Frames THEN "types.frame" ELSE "types.ext"))

CheckTrunc(e) ==
  LET r == DecMsg(e.c, e.d, 0, lib.tm) IN
  If(r.ok /\ r.p = Len(e.d) /\ e.ret # << >>, "trunc")
  \cup If(~e.ok, "enc.ok")
  \cup If(Given(e.c, e.H[e.o].v) # Given(e.c, lib.heap[e.o].v), "enc.pure")
  \cup If(e.ok /\ ~e.refs, "trunc.ref")

CheckEq(e, x) ==
  IF ~e.ok THEN {"eq"}
  ELSE If(e.ret # x.ret \/ e.sym # x.ret \/ e.null \/ e.other \/ ~e.refl, "eq")
       \cup If(x.ret /\ e.ha # e.hb, "hash")

TypesAspect(e) == IF e.w \in Frames THEN "types.frame" ELSE "types.ext"

Check(e, x) ==
  IF e.op = "hang" THEN {"hang"}           \* the call did not return
  ELSE IF e.op = "skip" THEN {} ELSE       \* the program does not fit any more, after an earlier difference
  Others(e) \cup If(Has(e, "leak"), "released") \cup    \* buffers taken from the allocator and not given back
  CASE e.op = "new" -> If(~e.ok \/ e.H[e.o].c # e.c \/ e.H[e.o].v # InitV(e.c), "init")
    [] e.op = "view" -> If(~SameV(lib.heap[e.o].c, e.H[e.o].v, lib.heap[e.o].v), "unlinked")
    [] e.op \in {"fill", "set", "add", "drop", "share"} -> If(~e.ok \/ e.H[e.o].v # x.s.heap[e.o].v, "setget")
    [] e.op = "eq" -> CheckEq(e, x)
    [] e.op = "str" -> If(~e.ok \/ (Printable1(lib.heap[e.o].c, lib.heap[e.o].v) /\ e.ret # x.ret), "str")
                       \cup If(e.H[e.o].v # lib.heap[e.o].v, "str")
    [] e.op = "enc" -> CheckEnc(e, x)
    [] e.op = "dec" -> CheckDec(e, x)
    [] e.op = "trunc" -> CheckTrunc(e)
    [] e.op = "calc" -> If(~e.ok \/ e.ret # x.ret, "calc") \cup BufAs(e, x, "calc.ro")
    [] e.op = "verify" -> If(~e.ok \/ e.ret # x.ret, "calc") \cup BufAs(e, x, "calc.ro")
    [] e.op \in {"reg", "look"} -> If(~e.ok \/ e.ret # x.ret, "reg")
    [] e.op \in {"unreg", "regclr"} -> If(~e.ok, "reg")
    [] e.op = "treg" -> If(~e.ok, TypesAspect(e))
    [] e.op = "trem" -> If(~e.ok \/ e.ret # x.ret, TypesAspect(e))
    [] e.op = "tnew" -> If(e.ok # x.ok \/ (e.ok /\ e.ret # x.ret) \/ (~e.ok /\ e.ex # "IllegalArgumentException"), TypesAspect(e))
                        \cup If(e.ok /\ e.H[e.o].v # InitV(e.H[e.o].c), "fresh")
    [] e.op = "tof" -> If(~e.ok \/ ~TOfAllowed(lib, e.c, e.ret), "types.frame")
    [] e.op = "mtype" -> If(e.ok # x.ok \/ (e.ok /\ e.ret # x.ret) \/ (~e.ok /\ e.ex # "IllegalArgumentException"), "types.frame")
    [] e.op = "trim" -> If(~e.ok \/ e.ret # x.ret, "fix")
    [] e.op \in {"bm", "bset", "bclr"} ->
         If(~e.ok \/ \E m \in DOMAIN e.M : e.M[m].n # x.s.bms[m].n \/ Range(e.M[m].bits) # x.s.bms[m].bits, "bm")
    [] e.op = "bwrite" ->
         If(~e.ok \/ \E m \in DOMAIN e.M : Range(e.M[m].bits) # lib.bms[m].bits, "bmwire")
         \cup LET b0 == lib.bufs[e.b]  b1 == e.B[e.b] IN     \* it appends, and nothing else
              If(b1.r # b0.r \/ b1.ref # b0.ref \/ Len(b1.d) < Len(b0.d) \/ SubSeq(b1.d, 1, Len(b0.d)) # b0.d, "bmwire")
         \cup If(e.B[e.b].d # x.s.bufs[e.b].d, "bm.bytes")
    [] e.op = "bread" ->
         LET b0   == lib.bufs[e.b]
             n    == lib.bms[e.m].n
             ents == { i \in EntriesAt(b0, "bitmap") : b0.sent[i].v[1] = n } IN
         If(e.B[e.b].d # b0.d \/ e.B[e.b].ref # b0.ref, "bmwire") \cup
         IF ents = {} THEN {}
         ELSE LET ent == b0.sent[CHOOSE i \in ents : TRUE] IN
              If(~e.ok \/ e.B[e.b].r # b0.r + ent.len
                 \/ Range(e.M[e.m].bits) \notin { ent.v[2], BmBack(n, ent.v[2]) }, "bmwire")
              \cup If(e.ok /\ Range(e.M[e.m].bits) # ent.v[2] /\ Range(e.M[e.m].bits) = BmBack(n, ent.v[2])
                      /\ PrintT(<< "KNOWN", "bitmap16-position0" >>), "known")
              \cup If(\E m \in DOMAIN e.M \ {e.m} : Range(e.M[m].bits) # lib.bms[m].bits, "bmwire")
    [] e.op = "fixw" -> If(~e.ok \/ e.B[e.b].d # x.s.bufs[e.b].d \/ e.B[e.b].r # lib.bufs[e.b].r, "fix")
                        \cup If(e.B[e.b].ref # 1, "enc.ref")
    [] e.op = "fixr" -> If(e.ok # x.ok \/ (e.ok /\ (e.ret # x.ret \/ e.B[e.b].r # x.s.bufs[e.b].r)), "fix")
                        \cup If(~x.ok /\ e.ok, "trunc")
                        \cup If(e.B[e.b].d # lib.bufs[e.b].d, "fix")
                        \cup If(e.B[e.b].ref # 1, "dec.ref")
    [] e.op = "release" -> If(~e.ok \/ ~e.ret, "released")
    [] e.op = "reset" -> If(e.ok # x.ok \/ e.B[e.b].r # x.s.bufs[e.b].r, "mark")     \* the caller's mark is where it was put
    [] OTHER -> {}

-----------------------------------------------------------------------------
\* the specification's next state, corrected by what was observed
Observed(e, x) ==
  LET s1 == x.s
      heap == [ o \in DOMAIN s1.heap |->
                 IF o \in DOMAIN e.H
                 THEN [ c |-> e.H[o].c, v |-> e.H[o].v,
                        org |-> IF e.op = "dec" /\ o = e.o /\ ~e.ok THEN Absent ELSE s1.heap[o].org ]
                 ELSE IF e.op = "dec" /\ o = e.o /\ e.ok /\ x.ok /\ DecKey(e, x) \in DOMAIN memoD
                 THEN [ s1.heap[o] EXCEPT !.v = memoD[DecKey(e, x)][3] ]
                 ELSE s1.heap[o] ]
      more == [ o \in DOMAIN e.H \ DOMAIN s1.heap |-> Msg(e.H[o].c, e.H[o].v) ]
      \* an entry just made by the implementation is as long as what it appended
      fix(b, sent) ==
        IF e.op \notin {"enc", "bwrite"} \/ b # e.b THEN sent
        ELSE IF ~e.ok \/ sent = << >> THEN SelectSeq(sent, LAMBDA t : t.at < Len(lib.bufs[b].d))
        ELSE [ sent EXCEPT ![Len(sent)].len = Len(e.B[b].d) - Len(lib.bufs[b].d),
                           ![Len(sent)].v = IF e.op = "enc" THEN e.H[e.o].v ELSE @ ]
      bufs == [ b \in DOMAIN s1.bufs |->
                 IF b \in DOMAIN e.B
                 THEN [ s1.bufs[b] EXCEPT !.d = e.B[b].d, !.r = e.B[b].r, !.ref = e.B[b].ref,
                                          !.sent = fix(b, @) ]
                 ELSE s1.bufs[b] ]
      bms == [ m \in DOMAIN s1.bms |->
                 IF m \in DOMAIN e.M THEN [ n |-> s1.bms[m].n, bits |-> Range(e.M[m].bits) ] ELSE s1.bms[m] ]
  IN TLCEval([ s1 EXCEPT !.heap = more @@ heap, !.bufs = bufs, !.bms = bms ])

-----------------------------------------------------------------------------
TraceInit == line = 1 /\ lib = InitState /\ memoE = EmptyFn /\ memoD = EmptyFn /\ nbad = 0

Begin(e) == /\ e.op = "begin"
            /\ lib' = InitState /\ memoE' = EmptyFn /\ memoD' = EmptyFn
            /\ nbad' = nbad /\ line' = line + 1

NoOp == { "trunc", "hang", "skip" }
Report(asps, e) == \A a \in asps \cap Watch : PrintT(<< "MISMATCH", a, line, e.op >>)

Step(e) ==
  LET x == IF e.op \in NoOp THEN Res(lib, TRUE, Absent) ELSE Eff(lib, e)
      asps == Check(e, x)
  IN /\ e.op # "begin"
     /\ Report(asps, e)
     /\ nbad' = nbad + Cardinality(asps \cap Watch)
     /\ lib' = IF e.op = "hang" THEN lib ELSE Observed(e, x)
     /\ memoE' = IF e.op = "enc" /\ e.ok /\ x.ok
                 THEN LET m == lib.heap[e.o]
                          key == << m.c, Given(m.c, m.v), lib.reg, IF lib.reg = DefaultReg THEN << >> ELSE m.v >> IN
                      IF key \in DOMAIN memoE THEN memoE
                      ELSE Put(memoE, key, SubSeq(e.B[e.b].d, Len(lib.bufs[e.b].d) + 1, Len(e.B[e.b].d)))
                 ELSE memoE
     /\ memoD' = IF e.op = "dec" /\ x.ok /\ e.o \in DOMAIN e.H
                 THEN LET key == DecKey(e, x) IN
                      IF key \in DOMAIN memoD THEN memoD
                      ELSE Put(memoD, key, << e.ok, e.B[e.b].r - lib.bufs[e.b].r, IF e.ok THEN e.H[e.o].v ELSE << >> >>)
                 ELSE memoD
     /\ line' = line + 1

TraceNext == line <= Len(Trace) /\ LET e == Trace[line] IN Begin(e) \/ Step(e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceView == line

TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ PrintT(<< "CONSUMED", Len(Trace) >>)
=============================================================================
