--------------------------------- MODULE Bcj2 ---------------------------------
(***************************************************************************)
(* The four-stream x86 branch converter: what main, call, jump and selector  *)
(* streams stand for, and a maker of such streams.                          *)
(*  m: main bytes;  c, j: absolute targets of calls (E8) and of jumps        *)
(*  (E9, 0F 8x), big endian;  r: range coded decisions, one per branch.      *)
(***************************************************************************)
EXTENDS Bytes, TLC
L == INSTANCE Lzma

IsBranch(prev, b) == b = 232 \/ b = 233 \/ (prev = 15 /\ b \div 16 = 8)
Ctx(prev, b) == IF b = 232 THEN 3 + prev ELSE IF b = 233 THEN 2 ELSE 1
W32(n) == <<n % 65536, n \div 65536>>
LE4(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
BE4(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>

\* decoding: pieces of output between the targets; why it stopped
\* a: i main bytes used, n bytes of output so far, prev, rs range decoder, kc, kj targets used, at <<main bytes before, target>>, e
Begin(s) == [n |-> 0, prev |-> 0, rs |-> L!Start(s.r, 1, <<[k \in 1..258 |-> 1024]>>), kc |-> 0, kj |-> 0, at |-> <<>>, e |-> ""]
\* o: the position of the first byte (32 bits)
Take(s, size, a, i, o) ==
  IF a.e # "" \/ a.n >= size THEN a
  ELSE IF a.rs.e # "" THEN [a EXCEPT !.e = "selector: " \o a.rs.e]
  ELSE LET b == s.m[i]
       IN IF ~IsBranch(a.prev, b) THEN [a EXCEPT !.n = @ + 1, !.prev = b]
          ELSE LET x == L!Bit(s.r, a.rs, 1, Ctx(a.prev, b))
                   call == b = 232
                   k == IF call THEN a.kc ELSE a.kj
                   src == IF call THEN s.c ELSE s.j
               IN IF x.e # "" THEN [a EXCEPT !.n = @ + 1, !.e = "selector: " \o x.e]
                  ELSE IF x.bit = 0 THEN [a EXCEPT !.n = @ + 1, !.prev = b, !.rs = x]
                  ELSE IF a.n + 1 >= size THEN [a EXCEPT !.n = @ + 1, !.rs = x, !.e = "a target behind the end"]
                  ELSE IF 4 * k + 4 > Len(src) THEN [a EXCEPT !.n = @ + 1, !.rs = x, !.e = "no target left"]
                  ELSE LET t == LE4(Sub32(BE32(src, 4 * k + 1), Add32(o, W32(a.n + 5))))
                       IN [a EXCEPT !.n = @ + 5, !.prev = t[4], !.rs = x, !.kc = IF call THEN k + 1 ELSE @, !.kj = IF call THEN @ ELSE k + 1,
                                    !.at = Append(@, <<i, t>>), !.e = IF a.n + 5 > size THEN "a target over the end" ELSE ""]
\* [out, e]: e = "" when the streams make size bytes
DecodeAt(s, size, o) ==
  LET a == TLCEval(FoldLeft(LAMBDA x, i : Take(s, size, x, i, o), Begin(s), [i \in 1..Len(s.m) |-> i]))
      q == TLCEval(FoldLeft(LAMBDA x, y : [out |-> (x.out \o SubSeq(s.m, x.p + 1, y[1])) \o y[2], p |-> y[1]], [out |-> <<>>, p |-> 0], a.at))
      all == q.out \o SubSeq(s.m, q.p + 1, Len(s.m))
  IN [out |-> SubSeq(all, 1, IF a.n < size THEN a.n ELSE size), e |-> IF a.e # "" THEN a.e ELSE IF a.n < size THEN "too short" ELSE ""]
Decode(s, size) == DecodeAt(s, size, <<0, 0>>)

\* making: tokens <<byte>> or <<branch, absolute target>>; the selector without carries, for a few decisions
Even(dom) == [k \in dom |-> 1024]
Made0(dom) == [m |-> <<>>, c |-> <<>>, j |-> <<>>, low |-> <<0, 0>>, range |-> <<65535, 65535>>, T |-> Even(dom), prev |-> 0, out |-> <<>>]
Decide(w, i, bit) ==
  LET pr == w.T[i]
      q == w.range[2] * 32 + (w.range[1] \div 2048)
      a == (q \div 1024) * pr
      l == (a % 64) * 1024 + (q % 1024) * pr
      bound == <<l % 65536, (a \div 64) + (l \div 65536)>>
  IN IF bit = 0 THEN [w EXCEPT !.range = bound, !.T[i] = pr + ((2048 - pr) \div 32)]
     ELSE [w EXCEPT !.range = Sub32(w.range, bound), !.low = Add32(w.low, bound), !.T[i] = pr - (pr \div 32)]
Room(w) == w.range[2] >= 256
Plain(w, x) ==
  LET v == IF IsBranch(w.prev, x) THEN Decide(w, Ctx(w.prev, x), 0) ELSE w
  IN [v EXCEPT !.m = Append(@, x), !.out = Append(@, x), !.prev = x]
Jump(w, x, abs) ==
  LET v == Decide(w, Ctx(w.prev, x), 1)
      t == LE4(Sub32(abs, W32(Len(w.out) + 5)))
  IN [v EXCEPT !.m = Append(@, x), !.c = IF x = 232 THEN @ \o BE4(abs) ELSE @, !.j = IF x = 232 THEN @ ELSE @ \o BE4(abs),
               !.out = Append(@, x) \o t, !.prev = t[4]]
Streams(w) == [m |-> w.m, c |-> w.c, j |-> w.j, r |-> <<0>> \o BE4(w.low)]
=============================================================================
