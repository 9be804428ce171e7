------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings: sequences over 0..255.  Numbers of any width travel as    *)
(* big-endian two's complement byte strings, because 64-bit values do not  *)
(* fit TLC's integers; text is a sequence of Unicode code points.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise, TLC

RECURSIVE FlatR(_, _, _)
FlatR(ss, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN ss[lo]
  ELSE LET mid == (lo + hi) \div 2 IN FlatR(ss, lo, mid) \o FlatR(ss, mid + 1, hi)

Flat(ss) == FlatR(ss, 1, Len(ss))            \* concatenation of a sequence of sequences

Rev(b) == TLCEval([i \in 1..Len(b) |-> b[Len(b) + 1 - i]])

Order(b, e) == IF e = "LE" THEN Rev(b) ELSE b

\* n as w big-endian bytes (two's complement when negative; n fits TLC's integers)
RECURSIVE NatBE(_, _)
NatBE(n, w) == IF w = 0 THEN << >> ELSE Append(NatBE(n \div 256, w - 1), n % 256)
IntBE(n, w) == NatBE(n, w)   \* TLC's \div floors and % is non-negative, so this is two's complement

\* big-endian bytes to a natural number, saturating at Big
Big == 1073741824
RECURSIVE NatOf(_)
NatOf(b) == IF b = << >> THEN 0
            ELSE LET h == NatOf(SubSeq(b, 1, Len(b) - 1)) IN
                 IF h >= 4194304 THEN Big ELSE h * 256 + b[Len(b)]

Zeros(w) == TLCEval([i \in 1..w |-> 0])
Repl(c, n) == TLCEval([i \in 1..n |-> c])

Slice(b, from, to) == SubSeq(b, from + 1, to)      \* bytes at offsets from..to-1

-----------------------------------------------------------------------------
(* UTF-8 *)
Cp8(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c >= 55296 /\ c <= 57343 THEN << 63 >>   \* unpaired surrogate: '?'
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

Utf8(cps) == IF IsAscii(cps) THEN cps ELSE Flat(TLCEval([i \in 1..Len(cps) |-> Cp8(cps[i])]))

\* decoding: << code point, bytes taken >> at i; what is malformed becomes U+FFFD,
\* one for every longest run of bytes that could have begun a character
Tail8(x) == x \div 64 = 2
CpAt(b, i) ==
  LET h    == b[i]
      n    == IF h < 128 THEN 1 ELSE IF h < 194 THEN 0 ELSE IF h < 224 THEN 2 ELSE IF h < 240 THEN 3 ELSE IF h < 245 THEN 4 ELSE 0
      have == Len(b) - i + 1
      bad2 == \/ ~Tail8(b[i + 1])
              \/ h = 224 /\ b[i + 1] < 160
              \/ h = 240 /\ b[i + 1] < 144
              \/ h = 244 /\ b[i + 1] >= 144
      c    == CASE n = 2 -> (h % 32) * 64 + (b[i + 1] % 64)
                [] n = 3 -> (h % 16) * 4096 + (b[i + 1] % 64) * 64 + (b[i + 2] % 64)
                [] OTHER -> (h % 8) * 262144 + (b[i + 1] % 64) * 4096 + (b[i + 2] % 64) * 64 + (b[i + 3] % 64)
  IN IF n = 1 THEN << h, 1 >>
     ELSE IF n = 0 \/ have = 1 THEN << 65533, 1 >>
     ELSE IF bad2 THEN << 65533, 1 >>
     ELSE IF n = 2 THEN << c, 2 >>
     ELSE IF have = 2 THEN << 65533, 2 >>
     ELSE IF ~Tail8(b[i + 2]) THEN << 65533, 2 >>
     ELSE IF n = 3 THEN << IF c >= 55296 /\ c <= 57343 THEN 65533 ELSE c, 3 >>
     ELSE IF have = 3 THEN << 65533, 3 >>
     ELSE IF ~Tail8(b[i + 3]) THEN << 65533, 3 >>
     ELSE << c, 4 >>
RECURSIVE Utf8DecR(_, _, _)
Utf8DecR(b, i, acc) == IF i > Len(b) THEN acc ELSE LET c == CpAt(b, i) IN Utf8DecR(b, i + c[2], Append(acc, c[1]))
Utf8Dec(b) == IF IsAscii(b) THEN b ELSE Utf8DecR(b, 1, << >>)

WellFormed(b) == IsAscii(b) \/ (LET c == Utf8Dec(b) IN Utf8(c) = b)

\* number of leading bytes of b that fit into w without splitting a character
RECURSIVE CharCut(_, _)
CharCut(b, w) == IF w >= Len(b) THEN Len(b)
                 ELSE IF w > 0 /\ b[w + 1] \div 64 = 2 THEN CharCut(b, w - 1) ELSE w

-----------------------------------------------------------------------------
(* Checksums; a 32-bit checksum value is a 4-byte big-endian string *)
RECURSIVE Crc16Bits(_, _)
Crc16Bits(c, n) == IF n = 0 THEN c
                   ELSE Crc16Bits(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, n - 1)   \* 0xA001
Crc16T == TLCEval([i \in 0..255 |-> Crc16Bits(i, 8)])
Crc16(b) == LET step(c, x) == (c \div 256) ^^ Crc16T[(c ^^ x) % 256] IN
            LET c == FoldLeft(step, 65535, b) IN << 0, 0, c \div 256, c % 256 >>

\* CRC-32 on pairs <<high 16 bits, low 16 bits>>; 0xEDB88320 = <<60856, 33568>>
Shr32(h, l) == << h \div 2, (l \div 2) + 32768 * (h % 2) >>
RECURSIVE Crc32Bits(_, _)
Crc32Bits(c, n) == IF n = 0 THEN c
  ELSE LET s == Shr32(c[1], c[2]) IN
       Crc32Bits(IF c[2] % 2 = 1 THEN << s[1] ^^ 60856, s[2] ^^ 33568 >> ELSE s, n - 1)
Crc32T == TLCEval([i \in 0..255 |-> Crc32Bits(<< 0, i >>, 8)])
Crc32(b) ==
  LET step(c, x) == LET t == Crc32T[(c[2] ^^ x) % 256] IN
        << (c[1] \div 256) ^^ t[1], ((c[2] \div 256) + 256 * (c[1] % 256)) ^^ t[2] >>
      r == FoldLeft(step, << 65535, 65535 >>, b)
      h == r[1] ^^ 65535
      l == r[2] ^^ 65535
  IN << h \div 256, h % 256, l \div 256, l % 256 >>

ByteSum(b) == LET step(c, x) == (c + x) % 256 IN << 0, 0, 0, FoldLeft(step, 0, b) >>

-----------------------------------------------------------------------------
(* Decimal rendering of a big-endian two's complement byte string *)
DigitStr == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
\* divide the big-endian byte string by 10: <<quotient bytes, remainder>>
DivMod10(b) == LET step(acc, x) == LET v == acc[2] * 256 + x IN << Append(acc[1], v \div 10), v % 10 >>
               IN FoldLeft(step, << << >>, 0 >>, b)
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0
RECURSIVE UDec(_)
UDec(b) == LET q == DivMod10(b) IN
           IF AllZero(q[1]) THEN DigitStr[q[2] + 1] ELSE UDec(q[1]) \o DigitStr[q[2] + 1]
Negate(b) == \* two's complement negation
  LET step(acc, x) == LET v == (255 - x) + acc[2] IN << << v % 256 >> \o acc[1], v \div 256 >>
  IN FoldRight(LAMBDA x, acc : step(acc, x), b, << << >>, 1 >>)[1]
Decimal(b) == IF b[1] >= 128 THEN "-" \o UDec(Negate(b)) ELSE UDec(b)
=============================================================================
