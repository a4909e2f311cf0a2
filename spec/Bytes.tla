------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes, little-endian words and checksums.  TLC's integers have 32 bits, *)
(* so wider numbers are sequences of 16-bit limbs, least significant first:*)
(* a u32 is <<lo, hi>>, a u64 <<l0, l1, l2, l3>>.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255
BIG  == 1073741824                \* stands for "larger than any length we handle"
P2 == [k \in 0..30 |-> 2^k]

Zero64 == <<0, 0, 0, 0>>
L64(n) == <<n % 65536, n \div 65536, 0, 0>>             \* of 0 <= n < 2^31
L32(n) == <<n % 65536, n \div 65536>>
IsSmall(l) == \A i \in 3..Len(l) : l[i] = 0
Int64(l) == IF IsSmall(l) /\ l[2] < 16384 THEN l[1] + 65536 * l[2] ELSE BIG
\* a limb number is below 2^62 (so sums of two do not overflow an i64)
Fits62(l) == l[4] < 16384

Add64c(a, b) ==        \* <<carry-out, sum>>
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div 65536
      s3 == a[3] + b[3] + s2 \div 65536
      s4 == a[4] + b[4] + s3 \div 65536
  IN [c |-> s4 \div 65536, v |-> <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>]
Add64(a, b) == Add64c(a, b).v
LtL(a, b) ==            \* a < b
  \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i+1)..Len(a) : a[j] = b[j]
LeqL(a, b) == a = b \/ LtL(a, b)
Sub64(a, b) ==          \* a - b modulo 2^64
  LET d1 == a[1] - b[1]
      d2 == a[2] - b[2] - (IF d1 < 0 THEN 1 ELSE 0)
      d3 == a[3] - b[3] - (IF d2 < 0 THEN 1 ELSE 0)
      d4 == a[4] - b[4] - (IF d3 < 0 THEN 1 ELSE 0)
  IN <<d1 % 65536, d2 % 65536, d3 % 65536, d4 % 65536>>

\* 32-bit words
Add32(a, b) == LET s == a[1] + b[1] IN <<s % 65536, (a[2] + b[2] + s \div 65536) % 65536>>
Sub32(a, b) == LET d == a[1] - b[1] IN <<d % 65536, (a[2] - b[2] - (IF d < 0 THEN 1 ELSE 0)) % 65536>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
\* shifts of a 32-bit word by 0..31 places
Shr32(a, k) ==
  IF k >= 16 THEN <<a[2] \div P2[k - 16], 0>>
  ELSE <<(a[1] \div P2[k]) + (a[2] % P2[k]) * P2[16 - k], a[2] \div P2[k]>>
Shl32(a, k) ==
  IF k >= 16 THEN <<0, (a[1] % P2[32 - k]) * P2[k - 16]>>
  ELSE <<(a[1] % P2[16 - k]) * P2[k], (a[2] % P2[16 - k]) * P2[k] + a[1] \div P2[16 - k]>>
Ror32(a, k) == IF k = 0 THEN a ELSE Or32(Shr32(a, k), Shl32(a, 32 - k))

LE16(b, p) == b[p] + 256 * b[p + 1]
LE32(b, p) == <<LE16(b, p), LE16(b, p + 2)>>
LE64(b, p) == <<LE16(b, p), LE16(b, p + 2), LE16(b, p + 4), LE16(b, p + 6)>>
BE32(b, p) == <<b[p + 3] + 256 * b[p + 2], b[p + 1] + 256 * b[p]>>
LimbBytes(l) == [i \in 1..2 * Len(l) |-> IF i % 2 = 1 THEN l[(i + 1) \div 2] % 256 ELSE l[i \div 2] \div 256]
BE32Bytes(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>

Sub(b, p, n) == SubSeq(b, p, p + n - 1)
Rep(x, n) == [i \in 1..n |-> x]
Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
Count(s, P(_)) == Len(SelectSeq(s, P))

(***************************************************************************)
(* CRC-32 (reflected, polynomial EDB88320)                                 *)
(***************************************************************************)
CrcPoly == <<33568, 60856>>
CrcTable ==
  [n \in 0..255 |->
     FoldLeft(LAMBDA c, i : IF c[1] % 2 = 1 THEN Xor32(Shr32(c, 1), CrcPoly) ELSE Shr32(c, 1),
              <<n, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
Crc32(b) ==
  LET c == FoldLeft(LAMBDA a, x :
                      LET t == CrcTable[(a[1] % 256) ^^ x]
                      IN <<((a[1] \div 256) + (a[2] % 256) * 256) ^^ t[1], (a[2] \div 256) ^^ t[2]>>,
                    <<65535, 65535>>, b)
  IN <<65535 - c[1], 65535 - c[2]>>

ASSUME Crc32(<<49,50,51,52,53,54,55,56,57>>) = <<14630, 52212>>    \* CBF43926
=============================================================================
