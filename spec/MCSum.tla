------------------------------- MODULE MCSum -------------------------------
(***************************************************************************)
(* Checksums (C14), exhaustively on short inputs: every one-byte string,   *)
(* every string over boundary bytes up to Size, and every prefix of longer *)
(* ones.  The laws define the algorithms bit by bit, from the published    *)
(* polynomials, instead of by table.                                       *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Size

Edge == { 0, 1, 127, 128, 255 }
Inputs == { << x >> : x \in 0..255 } \cup UNION { [ 1..n -> Edge ] : n \in 0..Size }
          \cup { Cps("123456789") } \cup { [ i \in 1..n |-> (i * i + n) % 256 ] : n \in { 16, 100, 257 } }

Names == << "CRC16", "CRC32", "SSE_BIN", "SZSE_BIN" >>
Kinds == << "crc16", "crc32", "sum", "sum" >>
Prefix == [ i \in 1..4 |-> [ op |-> "svc", s |-> Names[i], alg |-> Names[i], impl |-> Kinds[i] ] ]

View2(w, s) == << w >>
ModelView == << who, hist >>       \* every call is a state of its own
Init == Start("sums", Prefix, View2)
Buf1(d) == [ op |-> "buf", b |-> "x", kind |-> "heap", ro |-> FALSE, d |-> << 77 >> \o d, r |-> 1, c |-> "", v |-> << >>, at |-> 0 ]
Next == \E d \in Inputs : Go(<< Buf1(TLCEval(d)) >> \o [ i \in 1..4 |-> [ op |-> "calc", s |-> Names[i], b |-> "x" ] ]
                             \o << [ op |-> "release", b |-> "x" ] >>, View2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* bit strings, least significant bit first *)
BitsOf(x, n) == TLCEval([ i \in 1..n |-> (x \div (2 ^ (i - 1))) % 2 ])
Xor2(p, q) == TLCEval([ i \in 1..Len(p) |-> (p[i] + q[i]) % 2 ])
\* one step of the reflected register: shift towards the low end, xor the polynomial if a one fell out
Shift(reg, poly) == LET sh == Tail(reg) \o << 0 >> IN IF reg[1] = 1 THEN Xor2(sh, poly) ELSE sh
Feed(reg, byte, poly) ==
  LET in == BitsOf(byte, 8)
      r0 == TLCEval([ i \in 1..Len(reg) |-> IF i <= 8 THEN (reg[i] + in[i]) % 2 ELSE reg[i] ])
  IN FoldLeft(LAMBDA r, i : Shift(r, poly), r0, << 1, 2, 3, 4, 5, 6, 7, 8 >>)
Ones(n) == TLCEval([ i \in 1..n |-> 1 ])
Crc(d, poly, n) == FoldLeft(LAMBDA r, x : Feed(r, x, poly), Ones(n), d)
Poly16 == BitsOf(40961, 16)                              \* 0x8005 reflected
Poly32 == BitsOf(33568, 16) \o BitsOf(60856, 16)         \* 0x04C11DB7 reflected
ByteAt(bits, k) == FoldLeft(LAMBDA a, i : 2 * a + bits[8 * k + i], 0, << 8, 7, 6, 5, 4, 3, 2, 1 >>)

DataOf(i) == LET j == CHOOSE j \in (i - 4)..(i - 1) : Is(j, "buf") IN Tail(hist[j].op.d)
Published == \A i \in At : Is(i, "calc") =>
  LET d == DataOf(i) IN
  CASE hist[i].op.s = "CRC16" -> LET c == Crc(d, Poly16, 16) IN hist[i].ret = << 0, 0, ByteAt(c, 1), ByteAt(c, 0) >>
    [] hist[i].op.s = "CRC32" -> LET c == Xor2(Crc(d, Poly32, 32), Ones(32)) IN
                                 hist[i].ret = << ByteAt(c, 3), ByteAt(c, 2), ByteAt(c, 1), ByteAt(c, 0) >>
    [] OTHER -> hist[i].ret = << 0, 0, 0, FoldLeft(LAMBDA a, x : a + x, 0, d) % 256 >>
CheckValues == \A i \in At : Is(i, "calc") /\ DataOf(i) = Cps("123456789") =>
  CASE hist[i].op.s = "CRC16" -> hist[i].ret = << 0, 0, 75, 55 >>
    [] hist[i].op.s = "CRC32" -> hist[i].ret = << 203, 244, 57, 38 >>
    [] OTHER -> hist[i].ret = << 0, 0, 0, 221 >>
=============================================================================
