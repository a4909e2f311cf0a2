-------------------------------- MODULE J_Alone --------------------------------
(* What the LZMA writer and reader do: C11.                                 *)
EXTENDS Lzma, Verdict, JudgeBase

\* r: died, res ("ok", "err", "panic"), want ("ok", "error", "refused"), header, eos, exp (limbs, <<>> none), n, props, dict (limbs),
\* pre, b (the stream, or only its header when it is long), full, data, runs [st, rel], other
Limbs(n) == <<n % 65536, n \div 65536, 0, 0>>
Word(b, p) == b[p] + 256 * b[p + 1]
H(r) == <<r.b[1], Word(r.b, 2), Word(r.b, 4), Word(r.b, 6), Word(r.b, 8), Word(r.b, 10), Word(r.b, 12)>>
Header(r) ==
  IF Len(r.b) < 13 THEN "the header is short"
  ELSE LET h == H(r)
       IN First(<<If(h[1] # r.props, "the header records other properties"),
                  If(<<h[2], h[3]>> # r.dict, "the header records another dictionary size"),
                  If(SubSeq(h, 4, 7) # (IF r.exp = <<>> THEN <<65535, 65535, 65535, 65535>> ELSE Limbs(r.n)), "the header records another size")>>)
Body(r) ==
  LET B == IF r.header THEN SubSeq(r.b, 14, Len(r.b)) ELSE r.b
      d == r.dict[1] + 65536 * r.dict[2]
      m == DecodeLzma(B, r.props, d, r.n, r.pre)
      k == DecodeLzma(B, r.props, d, 0 - (r.n + 1), r.pre)
  IN IF r.eos
     THEN First(<<If(k.e # "", "not a valid stream with an end marker: " \o k.e), If(k.out # r.data, "the stream stands for other bytes"),
                  If(k.used > Len(B), "the stream is short")>>)
     ELSE First(<<If(m.e # "", "not a valid stream: " \o m.e), If(m.out # r.data, "the stream stands for other bytes"),
                  If(m.used > Len(B), "the stream is short")>>)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE IF r.res = "panic" THEN "encoding panics"
  ELSE IF r.want # "ok" THEN If(r.res # "err", r.want \o " expected: " \o r.res)
  ELSE IF r.exp # <<>> /\ r.exp # Limbs(r.n) THEN Assert(FALSE, "generator and judge differ")
  ELSE IF r.res # "ok" THEN "encoding failed"
  ELSE First(<<IF r.header THEN Header(r) ELSE "",
               IF r.full THEN Body(r) ELSE "",
               If(r.other \notin {"", "eq"}, "another decoder: " \o r.other),
               All(Len(r.runs), LAMBDA i : First(<<If(r.runs[i].st # "ok", "reading it back: " \o r.runs[i].st),
                                                  If(r.runs[i].rel # "eq", "bytes read back differ: " \o r.runs[i].rel)>>))>>)
=============================================================================
