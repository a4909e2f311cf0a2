-------------------------------- MODULE Lzma --------------------------------
(***************************************************************************)
(* LZMA and LZMA2: what a stream of bytes stands for.                       *)
(*  - packets (literals, matches, repeated matches) and the bytes they make  *)
(*  - the range decoder and the packets a raw stream holds                   *)
(*  - the chunks of an LZMA2 stream                                         *)
(* 32-bit words of the range decoder are kept in two halves.                *)
(***************************************************************************)
EXTENDS Bytes, TLC

----------------------------------------------------------------------------
(* Packets.  A packet is a sequence <<kind, a, b>>:
     <<0, byte, 0>> literal    <<1, distance, length>> match
     <<2, 0, 1>> short repetition    <<3, k, length>> repetition of distance k
     <<4, 0, length>> end marker                                            *)
AfterLit(s) == IF s < 4 THEN 0 ELSE IF s < 10 THEN s - 3 ELSE s - 6
AfterMatch(s) == IF s < 7 THEN 7 ELSE 10
AfterRep(s) == IF s < 7 THEN 8 ELSE 11
AfterShort(s) == IF s < 7 THEN 9 ELSE 11
Rot(r, k) == CASE k = 0 -> r
               [] k = 1 -> <<r[2], r[1], r[3], r[4]>>
               [] k = 2 -> <<r[3], r[1], r[2], r[4]>>
               [] k = 3 -> <<r[4], r[1], r[2], r[3]>>
\* n bytes from dist (1-based) back; dist is at most Len(out)
Copied(out, dist, n) ==
  LET m == Len(out) IN out \o [i \in 1..n |-> out[m - dist + 1 + ((i - 1) % dist)]]
\* one packet on [out, rep (distances, 1-based), st]; base: length of what cannot be reached
Step(s, pk, base) ==
  CASE pk[1] = 0 -> [s EXCEPT !.out = Append(@, pk[2]), !.st = AfterLit(@)]
    [] pk[1] = 1 -> [out |-> Copied(s.out, pk[2], pk[3]), rep |-> <<pk[2], s.rep[1], s.rep[2], s.rep[3]>>, st |-> AfterMatch(s.st)]
    [] pk[1] = 2 -> [s EXCEPT !.out = Copied(@, s.rep[1], 1), !.st = AfterShort(@)]
    [] pk[1] = 3 -> LET r == Rot(s.rep, pk[2]) IN [out |-> Copied(s.out, r[1], pk[3]), rep |-> r, st |-> AfterRep(s.st)]
DistOf(s, pk) == CASE pk[1] = 0 -> 0 [] pk[1] = 1 -> pk[2] [] pk[1] = 2 -> s.rep[1] [] pk[1] = 3 -> s.rep[pk[2] + 1]
Reaches(s, pk, base, dict) == DistOf(s, pk) <= Len(s.out) - base /\ DistOf(s, pk) <= dict
\* the bytes of a sequence of packets; bad: number of the first packet that reaches too far, 0 if none
Apply(pre, pks, dict) ==
  FoldLeft(LAMBDA a, i :
             IF a.bad # 0 THEN a
             ELSE IF ~Reaches(a.s, pks[i], 0, dict) THEN [a EXCEPT !.bad = i]
             ELSE [a EXCEPT !.s = Step(a.s, pks[i], 0)],
           [s |-> [out |-> pre, rep |-> <<1, 1, 1, 1>>, st |-> 0], bad |-> 0], [i \in 1..Len(pks) |-> i])

----------------------------------------------------------------------------
(* The range decoder.  Tables: 1 flags, 2..5 distance slots, 6 match lengths,
   7 repetition lengths, 8 and up literals of one context                   *)
Half(n) == TLCEval([i \in 1..n |-> 1024])
H768 == Half(768)
Fresh0 == [i \in 1..7 |-> CASE i = 1 -> Half(580) [] i \in 2..5 -> Half(64) [] OTHER -> Half(514)]
Fresh == TLCEval(Fresh0)
\* where the flags are (1-based)
fMatch == 1
fRep == 193
fRep0 == 205
fRep1 == 217
fRep2 == 229
fLong == 241
fSpec == 433
fAlign == 561

\* payload B from position p: [T, rh, rl, ch, cl, p, bit, e]; e: why decoding cannot go on
Start(B, p, T) ==
  IF p + 4 > Len(B) THEN [T |-> T, rh |-> 65535, rl |-> 65535, ch |-> 0, cl |-> 0, p |-> p, bit |-> 0, e |-> "eof"]
  ELSE [T |-> T, rh |-> 65535, rl |-> 65535, ch |-> B[p + 1] * 256 + B[p + 2], cl |-> B[p + 3] * 256 + B[p + 4], p |-> p + 5, bit |-> 0,
        e |-> IF B[p] # 0 THEN "first byte" ELSE ""]
Norm(B, s) ==
  IF s.rh >= 256 THEN s
  ELSE LET c == IF s.p <= Len(B) THEN B[s.p] ELSE 0
       IN [s EXCEPT !.rh = s.rh * 256 + (s.rl \div 256), !.rl = (s.rl % 256) * 256,
                    !.ch = (s.ch % 256) * 256 + (s.cl \div 256), !.cl = (s.cl % 256) * 256 + c,
                    !.p = s.p + 1, !.e = IF s.p <= Len(B) THEN @ ELSE "eof"]
Bit(B, s0, t, i) ==
  LET s == Norm(B, s0)
      pr == s.T[t][i]
      q == s.rh * 32 + (s.rl \div 2048)
      a == (q \div 1024) * pr
      l == (a % 64) * 1024 + (q % 1024) * pr
      bh == (a \div 64) + (l \div 65536)
      bl == l % 65536
  IN IF s.ch < bh \/ (s.ch = bh /\ s.cl < bl)
     THEN [s EXCEPT !.rh = bh, !.rl = bl, !.T[t][i] = pr + ((2048 - pr) \div 32), !.bit = 0]
     ELSE [s EXCEPT !.rh = s.rh - bh - (IF s.rl < bl THEN 1 ELSE 0), !.rl = (s.rl - bl) % 65536,
                    !.ch = s.ch - bh - (IF s.cl < bl THEN 1 ELSE 0), !.cl = (s.cl - bl) % 65536,
                    !.T[t][i] = pr - (pr \div 32), !.bit = 1]
\* n bits of a tree whose node m is at at + m: [s, v]
Ones == [n \in 0..32 |-> [i \in 1..n |-> i]]
Tree(B, s, t, at, n) ==
  LET r == FoldLeft(LAMBDA a, i : LET x == Bit(B, a.s, t, at + a.m) IN [s |-> x, m |-> 2 * a.m + x.bit], [s |-> s, m |-> 1], Ones[n])
  IN [s |-> r.s, v |-> r.m - P2[n]]
RTree(B, s, t, at, n) ==
  LET r == FoldLeft(LAMBDA a, i : LET x == Bit(B, a.s, t, at + a.m) IN [s |-> x, m |-> 2 * a.m + x.bit, v |-> a.v + x.bit * P2[i - 1]],
                    [s |-> s, m |-> 1, v |-> 0], Ones[n])
  IN [s |-> r.s, v |-> r.v]
\* n bits of probability one half, most significant first
Direct(B, s0, n) ==
  FoldLeft(LAMBDA a, i :
     LET s == Norm(B, a.s)
         nh == s.rh \div 2
         nl == (s.rl \div 2) + (s.rh % 2) * 32768
     IN IF s.ch < nh \/ (s.ch = nh /\ s.cl < nl)
        THEN [s |-> [s EXCEPT !.rh = nh, !.rl = nl], v |-> 2 * a.v]
        ELSE [s |-> [s EXCEPT !.rh = nh, !.rl = nl, !.ch = s.ch - nh - (IF s.cl < nl THEN 1 ELSE 0), !.cl = (s.cl - nl) % 65536], v |-> 2 * a.v + 1],
     [s |-> s0, v |-> 0], Ones[n])
\* length tables: 1, 2 choices; 2 + 8 * ps + node low; 130 + 8 * ps + node middle; 258 + node high
Length(B, s, t, ps) ==
  LET c1 == Bit(B, s, t, 1)
  IN IF c1.bit = 0 THEN LET r == Tree(B, c1, t, 2 + 8 * ps, 3) IN [s |-> r.s, v |-> 2 + r.v]
     ELSE LET c2 == Bit(B, c1, t, 2)
          IN IF c2.bit = 0 THEN LET r == Tree(B, c2, t, 130 + 8 * ps, 3) IN [s |-> r.s, v |-> 10 + r.v]
             ELSE LET r == Tree(B, c2, t, 258, 8) IN [s |-> r.s, v |-> 18 + r.v]

\* one packet: z = [s, out, rep, st, pk]; q: [lc, lp, pb]; base, pos0: what is not reachable, where positions start
Touch(s, t) == IF t \in DOMAIN s.T THEN s ELSE [s EXCEPT !.T = @ @@ (t :> H768)]
Literal(B, z, q, base, pos) ==
  LET n == Len(z.out)
      prev == IF n > base THEN z.out[n] ELSE 0
      t == 8 + (pos % P2[q.lp]) * P2[q.lc] + (prev \div P2[8 - q.lc])
      s0 == Touch(z.s, t)
      plain == FoldLeft(LAMBDA a, i : LET x == Bit(B, a.s, t, a.m) IN [s |-> x, m |-> 2 * a.m + x.bit], [s |-> s0, m |-> 1], Ones[8])
      mb0 == z.out[n - z.rep[1] + 1]
      matched == FoldLeft(LAMBDA a, i :
                   LET h == (mb0 \div P2[8 - i]) % 2
                       x == Bit(B, a.s, t, IF a.same THEN 256 * (1 + h) + a.m ELSE a.m)
                   IN [s |-> x, m |-> 2 * a.m + x.bit, same |-> a.same /\ x.bit = h],
                 [s |-> s0, m |-> 1, same |-> TRUE], Ones[8])
  IN IF z.st >= 7 /\ z.rep[1] > n - base THEN [z EXCEPT !.s.e = "dist"]
     ELSE IF z.st >= 7 THEN [z EXCEPT !.s = matched.s, !.out = Append(@, matched.m - 256), !.st = AfterLit(@)]
     ELSE [z EXCEPT !.s = plain.s, !.out = Append(@, plain.m - 256), !.st = AfterLit(@)]
Repeat(z, base, dict, n, limit) ==
  IF z.s.e # "" THEN z
  ELSE IF z.rep[1] > Len(z.out) - base \/ z.rep[1] > dict THEN [z EXCEPT !.s.e = "dist"]
  ELSE IF Len(z.out) + n > limit THEN [z EXCEPT !.out = Copied(@, z.rep[1], limit - Len(z.out)), !.s.e = "over"]
  ELSE [z EXCEPT !.out = Copied(@, z.rep[1], n)]
TopDist == 2147483647                        \* stands for any distance of 2^31 - 1 and more
Packet(B, z, q, base, pos, dict, limit) ==
  LET ps == pos % P2[q.pb]
      b0 == Bit(B, z.s, 1, fMatch + 16 * z.st + ps)
  IN IF b0.bit = 0 THEN Literal(B, [z EXCEPT !.s = b0], q, base, pos)
     ELSE LET b1 == Bit(B, b0, 1, fRep + z.st)
     IN IF b1.bit = 0
        THEN LET ln == Length(B, b1, 6, ps)
                 sl == Tree(B, ln.s, MinI(2 + ln.v - 2, 5), 0, 6)
                 nb == (sl.v \div 2) - 1
                 top == 2 + (sl.v % 2)
                 sp == RTree(B, sl.s, 1, fSpec + top * P2[MaxI(nb, 0)] - sl.v - 1 + 0, nb)
                 dr == Direct(B, sl.s, nb - 4)
                 al == RTree(B, dr.s, 1, fAlign - 1, 4)
                 r == IF sl.v < 4 THEN [s |-> sl.s, d |-> sl.v, eos |-> FALSE]
                      ELSE IF sl.v < 14 THEN [s |-> sp.s, d |-> top * P2[nb] + sp.v, eos |-> FALSE]
                      ELSE [s |-> al.s, d |-> IF nb >= 29 THEN TopDist - 1 ELSE (top * P2[nb - 4] + dr.v) * 16 + al.v,
                            eos |-> sl.v = 63 /\ dr.v = P2[26] - 1 /\ al.v = 15]
                 nz == [z EXCEPT !.s = r.s, !.rep = <<r.d + 1, z.rep[1], z.rep[2], z.rep[3]>>, !.st = AfterMatch(@)]
             IN IF r.eos THEN [nz EXCEPT !.s.e = IF @ = "" THEN "eos" ELSE @]
                ELSE Repeat(nz, base, dict, ln.v, limit)
        ELSE LET b2 == Bit(B, b1, 1, fRep0 + z.st)
                 lg == Bit(B, b2, 1, fLong + 16 * z.st + ps)
                 b3 == Bit(B, b2, 1, fRep1 + z.st)
                 b4 == Bit(B, b3, 1, fRep2 + z.st)
                 k == IF b2.bit = 0 THEN 0 ELSE IF b3.bit = 0 THEN 1 ELSE 2 + b4.bit
                 s5 == IF b2.bit = 0 THEN lg ELSE IF b3.bit = 0 THEN b3 ELSE b4
                 ln == Length(B, s5, 7, ps)
             IN IF b2.bit = 0 /\ lg.bit = 0
                THEN Repeat([z EXCEPT !.s = lg, !.st = AfterShort(@)], base, dict, 1, limit)
                ELSE Repeat([z EXCEPT !.s = ln.s, !.rep = Rot(@, k), !.st = AfterRep(@)], base, dict, ln.v, limit)
\* packets until limit bytes are out, or something stops them; pos0: length of out at position 0
Packets(B, z0, q, base, pos0, dict, limit) ==
  FoldLeft(LAMBDA z, i : IF z.s.e # "" \/ Len(z.out) >= limit THEN z ELSE Packet(B, z, q, base, Len(z.out) - pos0, dict, limit),
           z0, [i \in 1..(limit - Len(z0.out)) |-> i])

PropsOK(p) == p < 225
Props(p) == [lc |-> p % 9, lp |-> (p \div 9) % 5, pb |-> p \div 45]
\* a raw LZMA stream: size < 0: until the end marker, and at most -size bytes.
\* [e: "" or what is wrong, out, used]
DecodeLzma(B, props, dict, size, pre) ==
  LET lim == Len(pre) + (IF size < 0 THEN 0 - size ELSE size)
      z == Packets(B, [s |-> Start(B, 1, Fresh), out |-> pre, rep |-> <<1, 1, 1, 1>>, st |-> 0], Props(props), 0, 0, dict, lim)
      e == z.s.e
      out == SubSeq(z.out, Len(pre) + 1, Len(z.out))
  IN IF size < 0 THEN [e |-> IF e = "eos" THEN "" ELSE IF e = "" THEN "no end" ELSE e, out |-> out, used |-> z.s.p - 1]
     ELSE [e |-> IF e = "eos" THEN "early end" ELSE e, out |-> out, used |-> Norm(B, z.s).p - 1]

----------------------------------------------------------------------------
(* LZMA2.  y = [p, out, base, T, rep, st, q, nd, np, ns, e, cs]: nd/np/ns: dictionary reset, properties,
   state reset still needed; cs: the chunks <<control, unpacked, packed>>; e = "end" after the end marker *)
Lz2Props(p) == p < 225 /\ (p % 9) + ((p \div 9) % 5) <= 4
Chunk(B, y, dict) ==
  IF y.p > Len(B) THEN [y EXCEPT !.e = "eof"]
  ELSE
  LET c == B[y.p]
      dreset == c >= 224 \/ c = 1
      base == IF dreset THEN Len(y.out) ELSE y.base
      n2 == IF y.p + 2 <= Len(B) THEN B[y.p + 1] * 256 + B[y.p + 2] + 1 ELSE 0
  IN IF c = 0 THEN [y EXCEPT !.p = @ + 1, !.e = "end"]
     ELSE IF ~dreset /\ y.nd THEN [y EXCEPT !.e = "order"]
     ELSE IF c \in 3..127 THEN [y EXCEPT !.e = "order"]
     ELSE IF c <= 2
     THEN IF n2 = 0 \/ y.p + 2 + n2 > Len(B) THEN [y EXCEPT !.e = "eof", !.out = @ \o (IF n2 = 0 THEN <<>> ELSE SubSeq(B, y.p + 3, Len(B)))]
          ELSE [y EXCEPT !.p = @ + 3 + n2, !.out = @ \o Sub(B, y.p + 3, n2), !.base = base, !.nd = FALSE,
                         !.np = @ \/ c = 1, !.ns = TRUE, !.cs = Append(@, <<c, n2, n2>>)]
     ELSE IF c < 192 /\ (y.np \/ dreset) THEN [y EXCEPT !.e = "order"]
     ELSE IF y.p + 4 + (IF c >= 192 THEN 1 ELSE 0) > Len(B) THEN [y EXCEPT !.e = "eof"]
     ELSE
     LET un == (c % 32) * 65536 + n2
         pk == B[y.p + 3] * 256 + B[y.p + 4] + 1
         at == y.p + 5 + (IF c >= 192 THEN 1 ELSE 0)
         q == IF c >= 192 THEN Props(B[y.p + 5]) ELSE y.q
         reset == c >= 160
         P == SubSeq(B, at, at + pk - 1)
         z == Packets(P, [s |-> Start(P, 1, IF reset THEN Fresh ELSE y.T), out |-> y.out,
                          rep |-> IF reset THEN <<1, 1, 1, 1>> ELSE y.rep, st |-> IF reset THEN 0 ELSE y.st],
                      q, base, base, dict, Len(y.out) + un)
         f == Norm(P, z.s)
     IN IF c >= 192 /\ ~Lz2Props(B[y.p + 5]) THEN [y EXCEPT !.e = "props"]
        ELSE IF ~reset /\ y.ns THEN [y EXCEPT !.e = "state"]
        ELSE IF at + pk - 1 > Len(B) THEN [y EXCEPT !.e = "eof"]
        ELSE IF z.s.e # "" THEN [y EXCEPT !.e = z.s.e, !.out = z.out]
        ELSE IF f.e # "" \/ f.ch # 0 \/ f.cl # 0 \/ f.p # Len(P) + 1 THEN [y EXCEPT !.e = "payload", !.out = z.out]
        ELSE [y EXCEPT !.p = at + pk, !.out = z.out, !.base = base, !.nd = FALSE, !.np = FALSE, !.ns = FALSE, !.q = q,
                       !.T = z.s.T, !.rep = z.rep, !.st = z.st, !.cs = Append(@, <<c, un, pk>>)]
DecodeLzma2(B, dict, pre) ==
  LET y0 == [p |-> 1, out |-> pre, base |-> 0, T |-> Fresh, rep |-> <<1, 1, 1, 1>>, st |-> 0, q |-> Props(93),
             nd |-> pre = <<>>, np |-> TRUE, ns |-> TRUE, e |-> "", cs |-> <<>>]
      y == FoldLeft(LAMBDA a, i : IF a.e # "" THEN a ELSE Chunk(B, a, dict), y0, [i \in 1..(Len(B) \div 4 + 2) |-> i])
  IN [e |-> IF y.e = "end" THEN "" ELSE IF y.e = "" THEN "eof" ELSE y.e,
      out |-> SubSeq(y.out, Len(pre) + 1, Len(y.out)), used |-> y.p - 1, cs |-> y.cs]
=============================================================================
