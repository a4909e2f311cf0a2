-------------------------------- MODULE J_Bcj2 --------------------------------
(* Folders of the four-stream branch converter: C13.                         *)
EXTENDS JudgeBase
B == INSTANCE Bcj2
D == INSTANCE Verdict

\* r: died, folders [s (streams m, c, j, r), n (size), subs (sizes), made ("" or what the maker knows they stand for)],
\*    reads [open, end, visits [i, st, d]]
Ends(subs) == B!FoldLeft(LAMBDA a, n : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + n), <<>>, subs)
\* per entry: w the bytes as far as there are any, whole
Entries(f) ==
  LET x == TLCEval(B!Decode(f.s, f.n))
      e == Ends(f.subs)
  IN IF f.whole /\ x.e # "" THEN Assert(FALSE, "the streams are not what they should be: " \o x.e)
     ELSE [k \in 1..Len(e) |-> [w |-> SubSeq(x.out, e[k] - f.subs[k] + 1, IF e[k] < Len(x.out) THEN e[k] ELSE Len(x.out)), n |-> f.subs[k], whole |-> f.whole, some |-> x.e = "" \/ e[k] <= Len(x.out)]]
Want(r) == B!FlattenSeq([i \in 1..Len(r.folders) |-> Entries(r.folders[i])])
Differ(a, b) == CHOOSE k \in 1..Len(a) : (k > Len(b) \/ a[k] # b[k]) /\ \A j \in 1..(k - 1) : a[j] = b[j]
Visit(w, v) ==
  LET e == w[v.i + 1]
  IN D!First(<<D!If(e.whole /\ v.st # "ok", "not delivered: " \o v.st),
               D!If(v.st = "ok" /\ Len(v.d) # e.n, "delivers another number of bytes"),
               D!If(v.st = "ok" /\ ~e.some /\ e.n > 0, "delivered complete though its streams end early"),
               IF v.d = <<>> \/ (Len(v.d) <= Len(e.w) /\ SubSeq(e.w, 1, Len(v.d)) = v.d) THEN ""
               ELSE "wrong byte at " \o ToString(Differ(v.d, e.w) - 1)>>)
Read(r, w, x) ==
  LET all == \A k \in 1..Len(w) : w[k].whole
  IN D!First(<<
    D!If(x.open # "ok", "opening fails: " \o x.open),
    D!All(Len(x.visits), LAMBDA i : D!At("entry ", x.visits[i].i, Visit(w, x.visits[i]))),
    D!If(x.open = "ok" /\ all /\ x.end # "ok", "reading fails: " \o x.end),
    D!If(Len(x.end) >= 5 /\ SubSeq(x.end, 1, 5) = "panic", "panics"),
    D!If(x.open = "ok" /\ ~(\A k \in 1..Len(w) : w[k].some) /\ x.end = "ok" /\ (\A i \in 1..Len(x.visits) : x.visits[i].st = "ok"), "no error though streams end early"),
    D!If(x.open = "ok" /\ all /\ {x.visits[i].i : i \in 1..Len(x.visits)} # 0..(Len(w) - 1), "not every entry is visited")>>)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET w == TLCEval(Want(r)) IN D!All(Len(r.reads), LAMBDA i : D!At("read ", i, Read(r, w, r.reads[i])))
=============================================================================
