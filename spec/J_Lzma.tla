-------------------------------- MODULE J_Lzma --------------------------------
(* Decoding: what the stream stands for against what was delivered: C10.    *)
EXTENDS Lzma, Verdict, JudgeBase

\* r: k ("lzma", "lzma2"), b, props, dict, size (< 0: until the end marker, at most that many), pre, end (what the generator
\* made: "ok", "dist", "order", "?" for streams of other encoders), out (what it made of it), runs [st, rel, n, rest]
Meaning(r) == IF r.k = "lzma" THEN DecodeLzma(r.b, r.props, r.dict, r.size, r.pre) ELSE DecodeLzma2(r.b, r.dict, r.pre)
Run(r, m, x) ==
  IF m.e = "" THEN First(<<If(x.st # "ok", "a valid stream: " \o x.st), If(x.rel # "eq", "decoded bytes differ: " \o x.rel)>>)

  ELSE IF m.e \in {"dist", "order"} THEN First(<<If(x.st # "err", "a stream the format forbids (" \o m.e \o "): " \o x.st),
                                                If(x.rel \notin {"eq", "prefix"}, "bytes delivered before the error: " \o x.rel)>>)
  ELSE ""
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE IF r.k = "big" THEN All(Len(r.runs), LAMBDA i : First(<<If(r.runs[i].st # "ok", "a valid stream: " \o r.runs[i].st),
                                                              If(r.runs[i].rel # "eq", "decoded bytes differ: " \o r.runs[i].rel)>>))
  ELSE LET m == Meaning(r)
       IN IF (r.end = "ok" /\ m.e # "") \/ (r.end \in {"dist", "order"} /\ m.e # r.end) \/ m.out # r.out
          THEN Assert(FALSE, <<"generator and decoder of the specification differ", m.e, r.end, r.b>>)
          ELSE All(Len(r.runs), LAMBDA i : Run(r, m, r.runs[i]))
=============================================================================
