------------------------------- MODULE J_Filters -------------------------------
(* Folders whose data went through branch and delta filters: C12.            *)
EXTENDS JudgeBase
F == INSTANCE Filters
D == INSTANCE Verdict

\* r: died, folders [fs (filters [k, dist], the one next to the packed side last), data (what the innermost filter reads), subs (sizes),
\*    lib (what another implementation makes of the data)],
\*    reads [open, end, visits [i, st, d]]
Content(f) == F!FoldLeft(LAMBDA b, i : TLCEval(F!Filter(f.fs[Len(f.fs) + 1 - i].k, f.fs[Len(f.fs) + 1 - i].dist, b, FALSE)), f.data, [i \in 1..Len(f.fs) |-> i])
Entries(f) ==
  LET b == TLCEval(Content(f))
  IN IF b # f.lib THEN Assert(FALSE, "the specification and another implementation of the filters differ") ELSE F!FoldLeft(LAMBDA a, n : [at |-> a.at + n, out |-> Append(a.out, SubSeq(b, a.at + 1, a.at + n))], [at |-> 0, out |-> <<>>], f.subs).out
Want(r) == F!FlattenSeq([i \in 1..Len(r.folders) |-> Entries(r.folders[i])])
Visit(w, v) ==
  D!First(<<D!If(v.st # "ok", "not delivered: " \o v.st),
            IF v.d = w[v.i + 1] THEN ""
            ELSE IF Len(v.d) # Len(w[v.i + 1]) THEN "delivers another number of bytes"
            ELSE "wrong byte at " \o ToString((CHOOSE k \in 1..Len(v.d) : v.d[k] # w[v.i + 1][k] /\ \A j \in 1..(k - 1) : v.d[j] = w[v.i + 1][j]) - 1)>>)
Read(w, x) ==
  D!First(<<D!If(x.open # "ok", "opening fails: " \o x.open),
            D!All(Len(x.visits), LAMBDA i : D!At("entry ", x.visits[i].i, Visit(w, x.visits[i]))),
            D!If(x.open = "ok" /\ x.end # "ok", "reading fails: " \o x.end),
            D!If(x.open = "ok" /\ {x.visits[i].i : i \in 1..Len(x.visits)} # 0..(Len(w) - 1), "not every entry is visited")>>)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET w == TLCEval(Want(r)) IN D!All(Len(r.reads), LAMBDA i : D!At("read ", i, Read(w, r.reads[i])))
=============================================================================
