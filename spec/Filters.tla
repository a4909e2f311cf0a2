------------------------------- MODULE Filters --------------------------------
(***************************************************************************)
(* The branch and delta filters, from the published definitions (LZMA SDK).  *)
(* Every filter is a map of byte sequences that keeps the length; e = TRUE   *)
(* is the direction of a compressor, FALSE of a decompressor.  Positions     *)
(* count from 0 at the first byte of the stream; o (32 bits) is the position *)
(* of the first byte of b, so that b may be a piece from anywhere in one.    *)
(***************************************************************************)
EXTENDS Bytes, TLC

At(b, i) == b[i + 1]
W(n) == <<n % 65536, n \div 65536>>
Go(e, src, n, o) == IF e THEN Add32(src, Add32(o, W(n))) ELSE Sub32(src, Add32(o, W(n)))
LE(b, i) == <<At(b, i) + 256 * At(b, i + 1), At(b, i + 2) + 256 * At(b, i + 3)>>
BE(b, i) == <<At(b, i + 3) + 256 * At(b, i + 2), At(b, i + 1) + 256 * At(b, i)>>
LEb(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
BEb(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
\* instructions of four bytes at multiples of four
Fours(b, Is(_), To(_)) ==
  LET m == Len(b) \div 4
  IN FlattenSeq([k \in 1..m |-> IF Is(4 * (k - 1)) THEN To(4 * (k - 1)) ELSE Sub(b, 4 * k - 3, 4)]) \o Sub(b, 4 * m + 1, Len(b) - 4 * m)

Arm(b, e, o) ==
  Fours(b, LAMBDA i : At(b, i + 3) = 235,
        LAMBDA i : LET src == Shl32(<<At(b, i) + 256 * At(b, i + 1), At(b, i + 2)>>, 2)
                       d == Shr32(Go(e, src, i + 8, o), 2)
                   IN <<d[1] % 256, d[1] \div 256, d[2] % 256, 235>>)
Ppc(b, e, o) ==
  Fours(b, LAMBDA i : At(b, i) \div 4 = 18 /\ At(b, i + 3) % 4 = 1,
        LAMBDA i : LET w == BE(b, i)
                       src == And32(w, <<65532, 1023>>)
                       d == Go(e, src, i, o)
                   IN BEb(Or32(And32(d, <<65532, 1023>>), <<1, 18432>>)))
Sparc(b, e, o) ==
  Fours(b, LAMBDA i : (At(b, i) = 64 /\ At(b, i + 1) < 64) \/ (At(b, i) = 127 /\ At(b, i + 1) >= 192),
        LAMBDA i : LET d == Shr32(Go(e, Shl32(BE(b, i), 2), i, o), 2)
                       neg == (d[2] \div 64) % 2 = 1
                   IN BEb(Or32(Or32(IF neg THEN <<0, 16320>> ELSE <<0, 0>>, And32(d, <<65535, 63>>)), <<0, 16384>>)))
\* two half words, at even positions; one behind a pair that was converted is no first one
Thumb(b, e, o) ==
  LET n == Len(b)
      r == FoldLeft(LAMBDA a, k :
             LET i == 2 * (k - 1)
             IN IF i < a.skip THEN a
                ELSE IF At(b, i + 1) \div 8 # 30 \/ At(b, i + 3) \div 8 # 31
                THEN [a EXCEPT !.out = @ \o Sub(b, i + 1, 2), !.skip = i + 2]
                ELSE LET hi == (At(b, i + 1) % 8) * 256 + At(b, i)          \* 11 bits
                         lo == (At(b, i + 3) % 8) * 256 + At(b, i + 2)      \* 11 bits
                         src == Shl32(Or32(Shl32(W(hi), 11), W(lo)), 1)
                         d == Shr32(Go(e, src, i + 4, o), 1)
                         h == Shr32(d, 11)[1] % 2048
                         l == d[1] % 2048
                     IN [a EXCEPT !.out = @ \o <<h % 256, 240 + (h \div 256), l % 256, 248 + (l \div 256)>>, !.skip = i + 4],
           [out |-> <<>>, skip |-> 0], [k \in 1..(IF n < 4 THEN 0 ELSE (n - 4) \div 2 + 1) |-> k])
  IN r.out \o Sub(b, r.skip + 1, n - r.skip)

\* x86: E8 and E9 with a displacement whose top byte says that it is small;
\* mask: which of the three bytes before were such opcodes that were not converted
MS(x) == x = 0 \/ x = 255
Allowed == <<TRUE, TRUE, TRUE, FALSE, TRUE, FALSE, FALSE, FALSE>>
BitNo == <<0, 1, 2, 2, 3, 3, 3, 3>>
AllOnes(k) == IF k = 32 THEN <<65535, 65535>> ELSE Sub32(Shl32(<<1, 0>>, k), <<1, 0>>)
ByteAt(w, sh) == Shr32(w, sh)[1] % 256
RECURSIVE X86Dest(_, _, _, _, _)
X86Dest(e, src, ip, mask, o) ==
  LET d == Go(e, src, ip, o)
  IN IF mask = 0 THEN d
     ELSE LET ix == BitNo[mask + 1] * 8
          IN IF ~MS(ByteAt(d, 24 - ix)) THEN d
             ELSE X86Dest(e, Xor32(d, AllOnes(32 - ix)), ip, mask, o)
X86(b, e, o) ==
  LET n == Len(b)
      r == FoldLeft(LAMBDA a, k :
             LET i == k - 1
             IN IF i < a.skip \/ At(b, i) \notin {232, 233} THEN a
                ELSE
                LET gap == i - a.prev
                    mask == IF gap > 3 THEN 0 ELSE (a.mask * P2[gap - 1]) % 8
                    no == [a EXCEPT !.prev = i, !.mask = ((2 * mask) % 8) + 1 - (IF ((2 * mask) % 8) % 2 = 1 THEN 1 ELSE 0), !.skip = i + 1]
                IN IF mask # 0 /\ (~Allowed[mask + 1] \/ MS(At(b, i + 4 - BitNo[mask + 1]))) THEN no
                   ELSE IF ~MS(At(b, i + 4)) THEN no
                   ELSE LET d == X86Dest(e, LE(b, i + 1), i + 5, mask, o)
                        IN [a EXCEPT !.prev = i, !.mask = mask, !.skip = i + 5,
                                     !.at = Append(@, [i |-> i, v |-> <<At(b, i), d[1] % 256, d[1] \div 256, d[2] % 256, IF (d[2] \div 256) % 2 = 1 THEN 255 ELSE 0>>])],
           [skip |-> 0, prev |-> -1, mask |-> 0, at |-> <<>>], [k \in 1..(IF n < 5 THEN 0 ELSE n - 4) |-> k])
      \* the pieces between what was converted
      q == FoldLeft(LAMBDA a, x : [out |-> (a.out \o Sub(b, a.p + 1, x.i - a.p)) \o x.v, p |-> x.i + 5], [out |-> <<>>, p |-> 0], r.at)
  IN q.out \o Sub(b, q.p + 1, n - q.p)

Delta(b, dist, e) ==
  IF e THEN [i \in 1..Len(b) |-> (b[i] - (IF i > dist THEN b[i - dist] ELSE 0)) % 256]
  ELSE FoldLeft(LAMBDA a, i : Append(a, (b[i] + (IF i > dist THEN a[i - dist] ELSE 0)) % 256), <<>>, [i \in 1..Len(b) |-> i])

FilterAt(k, dist, b, e, o) ==
  CASE k = "x86" -> X86(b, e, o) [] k = "arm" -> Arm(b, e, o) [] k = "armt" -> Thumb(b, e, o)
    [] k = "ppc" -> Ppc(b, e, o) [] k = "sparc" -> Sparc(b, e, o) [] k = "delta" -> Delta(b, dist, e)
Filter(k, dist, b, e) == FilterAt(k, dist, b, e, <<0, 0>>)
\* how far a filter looks ahead of a byte before that byte is final
Ahead(k) == CASE k = "x86" -> 4 [] k = "delta" -> 0 [] OTHER -> 3
=============================================================================
