------------------------------ MODULE FinProto ------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is what a caller can observe *)
(* of it: the live messages, the buffers, the checksum registry, the type  *)
(* registries and the bitmaps.  One public call is one action (the calls   *)
(* are sequential code without internal synchronisation; for interleavings *)
(* of the steps inside a call see MCThreads).                              *)
(*                                                                         *)
(* Eff(s, op) is the effect of call op in state s:                         *)
(*    [s |-> next state, ok |-> returned normally?, ret |-> result]        *)
(* The actions below, the bounded models (MC*.tla) and the trace           *)
(* validation (Trace.tla) all use it.                                      *)
(*                                                                         *)
(* Ghost state: each buffer remembers in sent the messages that were put   *)
(* into it ([at, len, c, v, src], at = offset, src = who encoded it); each *)
(* message remembers in org the peer's bytes it was decoded from.           *)
(***************************************************************************)
EXTENDS Text, FiniteSets

(* Deviations of the implementation that are recorded as known findings.   *)
CONSTANT Known

-----------------------------------------------------------------------------
(* Messages and buffers *)
Msg(c, v) == [ c |-> c, v |-> v, org |-> Absent ]
Min2(x, y) == IF x < y THEN x ELSE y
Unlimited == 2147483647         \* the room in a buffer that grows
\* m: the position the caller has marked, to come back to
Buf(d, r, ro) == [ d |-> d, r |-> r, m |-> 0, ref |-> 1, ro |-> ro, max |-> Unlimited, sent |-> << >> ]

Put(f, k, val) == (k :> val) @@ f                \* extend or update a function
Drop(f, k) == [ x \in DOMAIN f \ {k} |-> f[x] ]

EmptyFn == [ x \in {} |-> 0 ]

InitState == [ heap |-> EmptyFn, bufs |-> EmptyFn, svcs |-> EmptyFn,
               reg |-> DefaultReg, tm |-> DefaultTypes,
               rev |-> TLCEval([ c \in { DefaultTypes.sse_SseBinary[i][2] : i \in 1..Len(DefaultTypes.sse_SseBinary) } |->
                          DefaultTypes.sse_SseBinary[CHOOSE i \in 1..Len(DefaultTypes.sse_SseBinary) :
                             DefaultTypes.sse_SseBinary[i][2] = c][1] ]),
               bms |-> EmptyFn ]

Res(s, ok, ret) == [ s |-> s, ok |-> ok, ret |-> ret ]

-----------------------------------------------------------------------------
(* Fields by path: << i >> is field i; << i, j, ... >> goes on inside it:   *)
(* for a list, j is the element (then a path inside that element)           *)
RECURSIVE SetAt(_, _, _, _)
SetAt(c, fv, path, val) ==
  IF Len(path) = 1 THEN [ fv EXCEPT ![path[1]] = val ]
  ELSE LET i == path[1]
           f == Tables[c][i] IN
       CASE f.k = "obj" -> [ fv EXCEPT ![i] = << SetAt(f.c, @[1], Tail(path), val) >> ]
         [] f.k = "dyn" -> [ fv EXCEPT ![i] = << @[1], SetAt(@[1], @[2], Tail(path), val) >> ]
         [] f.k = "list" ->
              LET j == path[2] IN
              [ fv EXCEPT ![i] = << [ @[1] EXCEPT ![j] =
                  IF Len(path) = 2 THEN val ELSE << SetAt(f.el.c, @[1], Tail(Tail(path)), val) >> ] >> ]

RECURSIVE GetAt(_, _, _)
GetAt(c, fv, path) ==
  IF Len(path) = 1 THEN fv[path[1]]
  ELSE LET f == Tables[c][path[1]]
           x == fv[path[1]] IN
       CASE f.k = "obj" -> GetAt(f.c, x[1], Tail(path))
         [] f.k = "dyn" -> GetAt(x[1], x[2], Tail(path))
         [] f.k = "list" -> IF Len(path) = 2 THEN x[1][path[2]] ELSE GetAt(f.el.c, x[1][path[2]][1], Tail(Tail(path)))

\* is there something at path?
RECURSIVE Reaches(_, _, _)
Reaches(c, fv, path) ==
  IF Len(path) = 1 THEN TRUE
  ELSE LET f == Tables[c][path[1]]
           x == fv[path[1]] IN
       x # Absent /\
       CASE f.k = "obj" -> Reaches(f.c, x[1], Tail(path))
         [] f.k = "dyn" -> Reaches(x[1], x[2], Tail(path))
         [] f.k = "list" -> path[2] <= Len(x[1]) /\ x[1][path[2]] # Absent /\
                            (IF Len(path) = 2 THEN TRUE ELSE Reaches(f.el.c, x[1][path[2]][1], Tail(Tail(path))))

-----------------------------------------------------------------------------
(* Messages *)
EffNew(s, op)  == Res([ s EXCEPT !.heap = Put(s.heap, op.o, Msg(op.c, InitV(op.c))) ], TRUE, Absent)
EffFill(s, op) == Res([ s EXCEPT !.heap[op.o].v = op.v, !.heap[op.o].org = Absent ], TRUE, Absent)
EffSet(s, op)  == Res([ s EXCEPT !.heap[op.o].v = SetAt(s.heap[op.o].c, @, op.path, op.val),
                                 !.heap[op.o].org = Absent ], TRUE, Absent)
\* the list that message o gives out, at path, is changed in place
ListAt(s, op)  == LET x == GetAt(s.heap[op.o].c, s.heap[op.o].v, op.path) IN IF x = Absent THEN << >> ELSE x[1]
EffList(s, op, l) == Res([ s EXCEPT !.heap[op.o].v = SetAt(s.heap[op.o].c, @, op.path, << l >>), !.heap[op.o].org = Absent ], TRUE, Absent)
EffAdd(s, op)  == EffList(s, op, ListAt(s, op) \o << op.val >>)         \* an element is added
EffDrop(s, op) == LET l == ListAt(s, op) IN                             \* the last element is removed
                  EffList(s, op, IF l = << >> THEN l ELSE SubSeq(l, 1, Len(l) - 1))
EffShare(s, op) ==      \* message o gets field i of message from: one list or body for both
  Res([ s EXCEPT !.heap[op.o].v[op.i] = s.heap[op.from].v[op.i], !.heap[op.o].org = Absent ], TRUE, Absent)
EffEq(s, op)   == Res(s, TRUE, s.heap[op.a].c = s.heap[op.b].c /\ s.heap[op.a].v = s.heap[op.b].v)
EffStr(s, op)  == Res(s, TRUE, Printed(s.heap[op.o].c, s.heap[op.o].v))

-----------------------------------------------------------------------------
(* Buffers *)
EffBuf(s, op) ==        \* a new buffer; from offset at on it may hold a peer's message
  LET sent == IF op.c = "" THEN << >>
              ELSE << [ at |-> op.at, len |-> Len(op.d) - op.at, c |-> op.c, v |-> op.v, src |-> "peer" ] >> IN
  Res([ s EXCEPT !.bufs = Put(s.bufs, op.b, [ Buf(op.d, op.r, op.ro) EXCEPT !.sent = sent, !.max = IF "max" \in DOMAIN op THEN op.max ELSE @ ]) ], TRUE, Absent)

\* entries that a change of bytes from..to-1 leaves intact
Intact(sent, from, to) == SelectSeq(sent, LAMBDA x : x.at + x.len <= from \/ x.at >= to)

EffWrite(s, op) ==      \* a peer's bytes arrive; the first few of them may have arrived before
  LET b == s.bufs[op.b]
      before == IF "back" \in DOMAIN op THEN op.back ELSE 0
      new == IF op.c = "" THEN << >>
             ELSE << [ at |-> Len(b.d) - before, len |-> Len(op.d) + before, c |-> op.c, v |-> op.v, src |-> "peer" ] >>
  IN Res([ s EXCEPT !.bufs[op.b].d = @ \o op.d, !.bufs[op.b].sent = @ \o new ], TRUE, Absent)

EffPatch(s, op) ==      \* the caller overwrites one byte
  Res([ s EXCEPT !.bufs[op.b].d[op.i + 1] = op.x, !.bufs[op.b].sent = Intact(@, op.i, op.i + 1) ], TRUE, Absent)

EffScribble(s, op) ==   \* the caller overwrites every byte
  Res([ s EXCEPT !.bufs[op.b].d = TLCEval([ i \in 1..Len(@) |-> 255 - @[i] ]), !.bufs[op.b].sent = << >> ], TRUE, Absent)

EffMark(s, op) == Res([ s EXCEPT !.bufs[op.b].m = s.bufs[op.b].r ], TRUE, Absent)
EffReset(s, op) ==      \* back to the mark
  IF s.bufs[op.b].m > Len(s.bufs[op.b].d) THEN Res(s, FALSE, Absent)
  ELSE Res([ s EXCEPT !.bufs[op.b].r = s.bufs[op.b].m ], TRUE, Absent)

EffSeek(s, op) == Res([ s EXCEPT !.bufs[op.b].r = op.r ], TRUE, Absent)

EffCompact(s, op) ==    \* discard what has been read
  LET b == s.bufs[op.b] IN
  Res([ s EXCEPT !.bufs[op.b].d = Slice(b.d, b.r, Len(b.d)), !.bufs[op.b].r = 0, !.bufs[op.b].m = IF @ > b.r THEN @ - b.r ELSE 0,
                 !.bufs[op.b].sent = LET keep == SelectSeq(@, LAMBDA x : x.at >= b.r) IN
                                     [ i \in 1..Len(keep) |-> [ keep[i] EXCEPT !.at = @ - b.r ] ] ], TRUE, Absent)

EffClear(s, op) == Res([ s EXCEPT !.bufs[op.b].d = << >>, !.bufs[op.b].r = 0, !.bufs[op.b].sent = << >> ], TRUE, Absent)

EffRelease(s, op) == Res([ s EXCEPT !.bufs = Drop(s.bufs, op.b) ], TRUE, TRUE)

-----------------------------------------------------------------------------
(* Encoding: bytes are appended, the computed fields are stored back *)
EncWith(s, op) ==
  LET m == s.heap[op.o] IN
  IF "chkWholeBuffer" \in Bug /\ FieldsOfKind(m.c, "chk") # {} THEN
     \* the checksum covers everything readable instead of this frame
     LET e == EncMsg(m.c, m.v, s.reg)
         i == CHOOSE i \in FieldsOfKind(m.c, "chk") : TRUE
         f == Tables[m.c][i]
         pre == Slice(e.b, 0, Len(e.b) - f.w)
         all == Slice(s.bufs[op.b].d, s.bufs[op.b].r, Len(s.bufs[op.b].d)) \o pre
         x == IF f.alg \in DOMAIN s.reg THEN Calc(s.reg[f.alg], all) ELSE m.v[i]
     IN [ b |-> pre \o Order(x, f.e), v |-> [ e.v EXCEPT ![i] = x ] ]
  ELSE EncMsg(m.c, m.v, s.reg)

EffEnc(s, op) ==
  LET m == s.heap[op.o] IN
  IF ~Encodable(m.c, m.v) THEN Res(s, FALSE, << >>)
  ELSE LET e == EncWith(s, op)
           b == s.bufs[op.b]
       IN IF Len(b.d) + Len(e.b) > b.max /\ "halfFits" \notin Bug THEN Res(s, FALSE, << >>)         \* there is no room for it
          ELSE
          Res([ s EXCEPT !.bufs[op.b].d = Slice(@ \o e.b, 0, Min2(Len(@ \o e.b), b.max)),
                         !.bufs[op.b].sent = Append(@, [ at |-> Len(b.d), len |-> Len(e.b),
                                                         c |-> m.c, v |-> e.v, src |-> "impl" ]),
                         !.heap[op.o].v = e.v ], TRUE, e.b)

(* Decoding: every field of the target is replaced by what the bytes say *)
RECURSIVE Merge(_, _, _)
Merge(c, old, new) ==     \* "staleList": an empty list or text keeps the old value
  TLCEval([ i \in 1..Len(new) |-> IF Tables[c][i].k \in {"list", "var"} /\ new[i] = Absent THEN old[i] ELSE new[i] ])

\* do the bytes from the read position to p make up a message a peer sent?
FromPeer(b, c, p) == \E i \in 1..Len(b.sent) :
  /\ b.sent[i].at = b.r /\ b.sent[i].at + b.sent[i].len = p
  /\ b.sent[i].c = c /\ b.sent[i].src = "peer"

EffDec(s, op) ==
  LET b == s.bufs[op.b]
      m == s.heap[op.o]
      r == DecMsg(m.c, b.d, b.r, s.tm)
  IN IF ~r.ok THEN Res(IF "movesMark" \in Bug THEN [ s EXCEPT !.bufs[op.b].m = Len(b.d) ] ELSE s, FALSE, r.why)
     ELSE LET v == IF "staleList" \in Bug THEN Merge(m.c, m.v, r.v) ELSE r.v
              s1 == [ s EXCEPT !.heap[op.o].v = v,
                               !.heap[op.o].org = IF FromPeer(b, m.c, r.p) THEN << Slice(b.d, b.r, r.p) >> ELSE Absent,
                               !.bufs[op.b].r = r.p ]
              dyns == FieldsOfKind(m.c, "dyn")
          IN IF "sharedBody" \in Bug /\ dyns # {} THEN
               \* one body object per class: later decodes show through
               LET i == CHOOSE i \in dyns : TRUE IN
               Res([ s1 EXCEPT !.heap = [ x \in DOMAIN s1.heap |->
                       IF s1.heap[x].c = m.c /\ x # op.o /\ s1.heap[x].v[i] # Absent
                          /\ s1.heap[x].v[i][1] = v[i][1]
                       THEN [ s1.heap[x] EXCEPT !.v[i] = v[i] ] ELSE s1.heap[x] ] ], TRUE, Absent)
             ELSE Res(s1, TRUE, Absent)

-----------------------------------------------------------------------------
(* Checksum services and their registry *)
SvcOf(s, name) == s.svcs[name]
EffSvc(s, op)   == Res([ s EXCEPT !.svcs = Put(s.svcs, op.s, [ id |-> op.s, alg |-> op.alg, impl |-> op.impl ]) ], TRUE, Absent)
EffCalc(s, op)  == LET b == s.bufs[op.b] IN Res(s, TRUE, Calc(SvcOf(s, op.s), Slice(b.d, b.r, Len(b.d))))
EffVerify(s, op) == LET b == s.bufs[op.b] IN Res(s, TRUE, Calc(SvcOf(s, op.s), Slice(b.d, b.r, Len(b.d))) = op.x)

EffReg(s, op) ==
  LET v == SvcOf(s, op.s) IN
  IF v.alg \in DOMAIN s.reg /\ "lastWins" \notin Bug THEN Res(s, TRUE, FALSE)
  ELSE Res([ s EXCEPT !.reg = Put(s.reg, v.alg, v) ], TRUE, TRUE)
EffUnreg(s, op) == Res([ s EXCEPT !.reg = Drop(s.reg, op.n) ], TRUE, Absent)
EffRegClear(s, op) == Res([ s EXCEPT !.reg = EmptyFn ], TRUE, Absent)
EffLook(s, op)  == Res(s, TRUE, IF op.n \in DOMAIN s.reg THEN s.reg[op.n].id ELSE "")

-----------------------------------------------------------------------------
(* Type registries *)
NoId == -1
RevDrop(rev, key) == [ c \in { c \in DOMAIN rev : rev[c] # key } |-> rev[c] ]

EffTReg(s, op) ==
  LET s1 == [ s EXCEPT !.tm[op.w] = PutKey(@, op.k, op.c) ] IN
  Res(IF op.w # "sse_SseBinary" THEN s1
      ELSE IF "staleReverse" \in Bug THEN [ s1 EXCEPT !.rev = Put(@, op.c, op.k) ]
      ELSE [ s1 EXCEPT !.rev = Put(RevDrop(@, op.k), op.c, op.k) ], TRUE, Absent)
EffTRem(s, op) ==
  LET s1 == [ s EXCEPT !.tm[op.w] = DropKey(@, op.k) ] IN
  Res(IF op.w # "sse_SseBinary" \/ "staleReverse" \in Bug THEN s1
      ELSE [ s1 EXCEPT !.rev = RevDrop(@, op.k) ], TRUE, HasKey(s.tm[op.w], op.k))
EffTNew(s, op) ==
  IF ~HasKey(s.tm[op.w], op.k) THEN Res(s, FALSE, Absent)
  ELSE LET c == ClassOf(s.tm[op.w], op.k) IN
       Res([ s EXCEPT !.heap = Put(s.heap, op.o, Msg(c, InitV(c))) ], TRUE, c)
EffTOf(s, op) == Res(s, TRUE, IF op.c \in DOMAIN s.rev THEN s.rev[op.c] ELSE NoId)

\* the enumeration of the assigned ids, whatever is registered
EffMType(s, op) == IF HasKey(DefaultTypes["sse_SseBinary"], op.k) THEN Res(s, TRUE, op.k) ELSE Res(s, FALSE, NoId)

\* ids that currently create class c
IdsOf(s, c) == LET t == s.tm["sse_SseBinary"] IN { t[i][1] : i \in { i \in 1..Len(t) : t[i][2] = c } }
\* which answers the reverse lookup may give: an id that creates the class; none
\* if there is no such id, or if the class's latest registration is gone
TOfAllowed(s, c, ret) ==
  \/ ret \in IdsOf(s, c)
  \/ ret = NoId /\ c \notin DOMAIN s.rev

-----------------------------------------------------------------------------
(* Presence bitmaps: n positions, a set of present ones.  On the wire:      *)
(*   8   one byte, position 0 in the top bit                                *)
(*   16  two bytes, likewise; the top bit of the first is always set        *)
(*       (finding bitmap16-position0: so position 0 does not survive)       *)
(*   32, 64  the value in 7-bit groups, least significant first, the top    *)
(*       bit of each byte telling whether another one follows               *)
Mask8(f(_)) == FoldLeft(LAMBDA a, i : 2 * a + (IF f(i) THEN 1 ELSE 0), 0, << 0, 1, 2, 3, 4, 5, 6, 7 >>)
BmByte(bits, k) == Mask8(LAMBDA i : (8 * k + i) \in bits)                 \* byte k, big-endian
\* group g: value bits 7g..7g+6; value bit j is position n-1-j
BmGroup(bits, n, g) == FoldLeft(LAMBDA a, j : 2 * a + (IF 7 * g + j < n /\ (n - 1 - (7 * g + j)) \in bits THEN 1 ELSE 0),
                                0, << 6, 5, 4, 3, 2, 1, 0 >>)
BmEnc(n, bits) ==
  CASE n = 8  -> << BmByte(bits, 0) >>
    [] n = 16 -> << BmByte(bits \cup {0}, 0), BmByte(bits, 1) >>
    [] OTHER ->
        LET used == { g \in 0..(n \div 7) : BmGroup(bits, n, g) # 0 }
            last == IF used = {} THEN 0 ELSE CHOOSE g \in used : \A h \in used : h <= g
        IN [ i \in 1..(last + 1) |-> BmGroup(bits, n, i - 1) + (IF i <= last THEN 128 ELSE 0) ]

BitSet(x) == { i \in 0..7 : (x \div (2 ^ (7 - i))) % 2 = 1 }              \* positions within a byte
BmDec(n, d, r) ==
  CASE n = 8  -> IF Len(d) < r + 1 THEN Fail(r) ELSE Done(r + 1, BitSet(d[r + 1]))
    [] n = 16 -> IF Len(d) < r + 2 THEN Fail(r)
                 ELSE Done(r + 2, (BitSet(d[r + 1]) \ {0}) \cup { 8 + i : i \in BitSet(d[r + 2]) })
    [] OTHER ->
        LET ends == { i \in (r + 1)..Len(d) : d[i] < 128 } IN
        IF ends = {} THEN Fail(r)
        ELSE LET e == CHOOSE i \in ends : \A j \in ends : i <= j
                 vals == UNION { { 7 * (i - r - 1) + (7 - q) : q \in BitSet(d[i]) \ {0} } : i \in (r + 1)..e }
             IN Done(e, { n - 1 - j : j \in { j \in vals : j < n } })

EffBm(s, op)    == Res([ s EXCEPT !.bms = Put(s.bms, op.m, [ n |-> op.n, bits |-> {} ]) ], TRUE, Absent)
EffBSet(s, op)  == Res([ s EXCEPT !.bms[op.m].bits = @ \cup {op.p} ], TRUE, Absent)
EffBClr(s, op)  == Res([ s EXCEPT !.bms[op.m].bits = IF "clearSets" \in Bug THEN @ \cup {op.p} ELSE @ \ {op.p} ], TRUE, Absent)
EffBWrite(s, op) ==
  LET m == s.bms[op.m]
      e == BmEnc(m.n, m.bits)
      b == s.bufs[op.b] IN
  Res([ s EXCEPT !.bufs[op.b].d = @ \o e,
                 !.bufs[op.b].sent = Append(@, [ at |-> Len(b.d), len |-> Len(e), c |-> "bitmap", v |-> << m.n, m.bits >>, src |-> "impl" ]) ],
      TRUE, e)
EffBRead(s, op) ==
  LET b == s.bufs[op.b]
      r == BmDec(s.bms[op.m].n, b.d, b.r) IN
  IF ~r.ok THEN Res(s, FALSE, Absent)
  ELSE Res([ s EXCEPT !.bms[op.m].bits = r.v, !.bufs[op.b].r = r.p ], TRUE, Absent)

\* the positions a bitmap written with bits must come back with
BmBack(n, bits) == IF n = 16 /\ "bitmap16-position0" \in Known THEN bits \ {0} ELSE bits

-----------------------------------------------------------------------------
(* Fixed-width texts written and read directly *)
EffFixW(s, op) ==
  LET f == SP("", op.n, op.pad, op.left) e == EncFix(f, TextOf(op.t)) IN
  Res([ s EXCEPT !.bufs[op.b].d = @ \o e ], TRUE, e)
EffFixR(s, op) ==
  LET f == SP("", op.n, op.pad, op.left) b == s.bufs[op.b] IN
  IF b.r + op.n > Len(b.d) THEN Res(s, FALSE, Absent)
  ELSE Res([ s EXCEPT !.bufs[op.b].r = @ + op.n ], TRUE, DecFix(f, Slice(b.d, b.r, b.r + op.n)))

-----------------------------------------------------------------------------
Eff(s, op) ==
  CASE op.op = "new"     -> EffNew(s, op)
    [] op.op = "fill"    -> EffFill(s, op)
    [] op.op = "set"     -> EffSet(s, op)
    [] op.op = "add"     -> EffAdd(s, op)
    [] op.op = "drop"    -> EffDrop(s, op)
    [] op.op = "share"   -> EffShare(s, op)
    [] op.op = "view"    -> Res(s, TRUE, Absent)
    [] op.op = "eq"      -> EffEq(s, op)
    [] op.op = "str"     -> EffStr(s, op)
    [] op.op = "buf"     -> EffBuf(s, op)
    [] op.op = "write"   -> EffWrite(s, op)
    [] op.op = "patch"   -> EffPatch(s, op)
    [] op.op = "scribble" -> EffScribble(s, op)
    [] op.op = "seek"    -> EffSeek(s, op)
    [] op.op = "mark"    -> EffMark(s, op)
    [] op.op = "reset"   -> EffReset(s, op)
    [] op.op = "compact" -> EffCompact(s, op)
    [] op.op = "clear"   -> EffClear(s, op)
    [] op.op = "release" -> EffRelease(s, op)
    [] op.op = "enc"     -> EffEnc(s, op)
    [] op.op = "dec"     -> EffDec(s, op)
    [] op.op = "svc"     -> EffSvc(s, op)
    [] op.op = "calc"    -> EffCalc(s, op)
    [] op.op = "verify"  -> EffVerify(s, op)
    [] op.op = "reg"     -> EffReg(s, op)
    [] op.op = "unreg"   -> EffUnreg(s, op)
    [] op.op = "regclr"  -> EffRegClear(s, op)
    [] op.op = "look"    -> EffLook(s, op)
    [] op.op = "treg"    -> EffTReg(s, op)
    [] op.op = "trem"    -> EffTRem(s, op)
    [] op.op = "tnew"    -> EffTNew(s, op)
    [] op.op = "tof"     -> EffTOf(s, op)
    [] op.op = "mtype"   -> EffMType(s, op)
    [] op.op = "bm"      -> EffBm(s, op)
    [] op.op = "bset"    -> EffBSet(s, op)
    [] op.op = "bclr"    -> EffBClr(s, op)
    [] op.op = "bwrite"  -> EffBWrite(s, op)
    [] op.op = "bread"   -> EffBRead(s, op)
    [] op.op = "fixw"    -> EffFixW(s, op)
    [] op.op = "fixr"    -> EffFixR(s, op)
    [] op.op = "trim"    -> Res(s, TRUE, Trim(op.t, op.pad, op.left))

=============================================================================
