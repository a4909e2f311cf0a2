-------------------------------- MODULE J_Far --------------------------------
(* Filters far into long streams, beyond the reach of 32 bits: C12, C13.     *)
EXTENDS JudgeBase
F == INSTANCE Filters
B == INSTANCE Bcj2
D == INSTANCE Verdict

\* r: died, k (the filter), n (length of the stream), wins: pieces of the stream between runs of a byte no filter touches
\*    [at (position, 32 bits), data or s (streams of the four-stream converter) and n, lib (what another implementation makes of it)],
\*    reads [open, end, visits [i, st, n, d (the same pieces of what was read), others (bytes elsewhere that are not that byte)]]
Piece(r, w) ==
  LET b == IF r.k = "bcj2" THEN B!DecodeAt(w.s, w.n, w.at).out ELSE F!FilterAt(r.k, 0, w.data, FALSE, w.at)
  IN IF b # w.lib THEN Assert(FALSE, "the specification and another implementation of the filters differ") ELSE b
Visit(r, ws, v) ==
  D!First(<<D!If(v.st # "ok", "not delivered: " \o v.st), D!If(v.n # r.n, "delivers another number of bytes"),
            D!All(Len(ws), LAMBDA k : D!If(v.d[k] # ws[k], "wrong bytes in piece " \o ToString(k))),
            D!If(v.others # 0, "wrong bytes between the pieces")>>)
Read(r, ws, x) ==
  D!First(<<D!If(x.open # "ok", "opening fails: " \o x.open),
            D!All(Len(x.visits), LAMBDA i : D!At("entry ", x.visits[i].i, Visit(r, ws, x.visits[i]))),
            D!If(x.open = "ok" /\ x.end # "ok", "reading fails: " \o x.end),
            D!If(x.open = "ok" /\ Len(x.visits) # 1, "not every entry is visited")>>)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET ws == TLCEval([k \in 1..Len(r.wins) |-> Piece(r, r.wins[k])]) IN D!All(Len(r.reads), LAMBDA i : D!At("read ", i, Read(r, ws, r.reads[i])))
=============================================================================
