------------------------------- MODULE J_Writer --------------------------------
(* What the LZMA2 encoder wrote: C09.                                       *)
EXTENDS Lzma, Verdict, JudgeBase

\* r: died, res, b (the stream, or <<>> when only its chunks are given), cs (<<control, unpacked, packed, props>>), props (the
\* declared byte), dict, pre, data (what went in) or n; tail: bytes behind the end marker, -1: no end marker;
\* other: what an independent decoder made of it ("eq", "" when not asked)
PropsByte(r, c) == If(c[1] >= 192 /\ c[4] # r.props, "a chunk declares other properties than the encoder's")
Flow(s, c) ==
  IF s.e # "" THEN s
  ELSE LET k == c[1]
       IN IF k = 1 THEN [s EXCEPT !.nd = FALSE, !.np = TRUE, !.ns = TRUE]
          ELSE IF k \in 3..127 THEN [s EXCEPT !.e = "an unknown kind of chunk"]
          ELSE IF s.nd /\ k < 224 THEN [s EXCEPT !.e = "no dictionary reset at the start"]
          ELSE IF k = 2 THEN [s EXCEPT !.ns = TRUE]
          ELSE IF k < 192 /\ s.np THEN [s EXCEPT !.e = "no properties where they are needed"]
          ELSE IF k < 160 /\ s.ns THEN [s EXCEPT !.e = "no state reset where one is needed"]
          ELSE [s EXCEPT !.nd = FALSE, !.np = FALSE, !.ns = FALSE]
Order(cs, pre) == FoldLeft(Flow, [nd |-> pre = <<>>, np |-> TRUE, ns |-> TRUE, e |-> ""], cs).e
Unpacked(cs) == FoldLeft(LAMBDA a, c : a + c[2], 0, cs)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE IF r.res # "ok" THEN "encoding failed: " \o r.res
  ELSE First(<<
    If(r.tail # 0, IF r.tail < 0 THEN "the end marker is missing" ELSE "bytes behind the end marker"),
    Order(r.cs, r.pre),
    All(Len(r.cs), LAMBDA i : At("chunk ", i, PropsByte(r, r.cs[i]))),
    If(Unpacked(r.cs) # r.n, "the chunks unpack to another length"),
    If(r.other \notin {"", "eq"}, "another decoder: " \o r.other),
    IF r.b = <<>> THEN ""
    ELSE LET m == DecodeLzma2(r.b, r.dict, r.pre)
         IN First(<<If(m.e # "", "not a valid stream: " \o m.e),
                    If(m.out # r.data, "the stream stands for other bytes"),
                    If(m.used # Len(r.b), "the stream ends early")>>)>>)
=============================================================================
