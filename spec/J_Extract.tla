------------------------------- MODULE J_Extract -------------------------------
(***************************************************************************)
(* Extractions: C16.                                                        *)
(* r: died, res, how, dest (path), before, after (trees below the scratch    *)
(*    root: [p, k, h, n, mt]), es (in the order of iteration: [name, dir, h, *)
(*    n, mt]), calls [name, p, under, h] (of a stand-in), order known or not *)
(***************************************************************************)
EXTENDS Tree, TLC, Verdict, JudgeBase

Under(t, d) == {x \in t : Len(x.p) >= Len(d) /\ SubSeq(x.p, 1, Len(d)) = d}
Rel(t, d) == {[x EXCEPT !.p = SubSeq(x.p, Len(d) + 1, Len(x.p))] : x \in {y \in Under(t, d) : Len(y.p) > Len(d)}}
\* directories above the destination may appear, and change their times
Outside(t, d) == {[p |-> x.p, k |-> x.k, h |-> x.h] : x \in {y \in t : ~(Len(y.p) >= Len(d) /\ SubSeq(y.p, 1, Len(d)) = d) /\ y.p \notin Above(d)}}
V(r) ==
  LET B == ToSet(r.before)
      A == ToSet(r.after)
      n == Len(r.es)
      outs == {i \in 1..n : LeadsOut(r.es[i].name)}
      odds == {i \in 1..n : Odd(r.es[i].name, r.es[i].dir)}
      same == \E i, j \in 1..n : i # j /\ Place(r.es[i].name) = Place(r.es[j].name)
      start == {[p |-> x.p, k |-> x.k, c |-> 0] : x \in Rel(B, r.dest)}
      run == FoldLeft(LAMBDA a, i : IF ~a.ok THEN a ELSE Put(a.fs, Place(r.es[i].name), r.es[i].dir, i), [fs |-> start, ok |-> TRUE], [i \in 1..n |-> i])
      plain == outs = {} /\ odds = {} /\ ~same
      In == Rel(A, r.dest)
      was == {x.p : x \in Rel(B, r.dest)}
      may == was \cup UNION {Prefs(Place(r.es[i].name)) : i \in 1..n}
      node(p) == CHOOSE x \in In : x.p = p
  IN IF r.died # "" THEN "the run died: " \o r.died
     ELSE IF r.res = "panic" THEN "panics"
     ELSE First(<<
       If(Outside(A, r.dest) # Outside(B, r.dest), "something outside of the destination has changed"),
       If(outs # {} /\ r.res = "ok", "a name that leads outside is passed over without an error"),
       If(\E x \in In : x.p \notin may, "something that is no entry was created"),
       If(\E x \in In : x.k \notin {"dir", "file"} /\ x.p \notin was, "something other than a file or a directory was created"),
       If(\E k \in 1..Len(r.calls) : ~r.calls[k].under, "a target outside of the destination was handed out"),
       IF r.how = "record" THEN
          First(<<If(In # Rel(B, r.dest), "files were written besides the given function"),
                  All(Len(r.calls), LAMBDA k : If(~\E i \in 1..n : r.calls[k].p = Place(r.es[i].name) /\ r.calls[k].h = r.es[i].h, "a target or a content that belongs to no entry was handed out")),
                  If(plain /\ r.res # "ok", "extraction fails"),
                  If(plain /\ {r.calls[k].p : k \in 1..Len(r.calls)} # {Place(r.es[i].name) : i \in 1..n}, "not every entry was handed out")>>)
       ELSE IF ~plain THEN ""
       ELSE IF ~run.ok THEN If(r.res = "ok", "success although entries cannot all be made")
       ELSE First(<<
         If(r.res # "ok", "extraction fails"),
         If({x.p : x \in In} # {x.p : x \in run.fs}, "the tree has other nodes"),
         All(n, LAMBDA i : LET e == r.es[i]
                               p == Place(e.name)
                           IN IF p = <<>> \/ p \notin {x.p : x \in In} THEN ""
                              ELSE At("entry ", i, First(<<If(node(p).k # (IF e.dir THEN "dir" ELSE "file"), "other kind"),
                                   If(~e.dir /\ (node(p).h # e.h \/ node(p).n # e.n), "other content"),
                                   If(~e.dir /\ e.mt # <<>> /\ node(p).mt # e.mt, "other modification time")>>))),
         \* what was there before and is no entry stays
         If(\E x \in Rel(B, r.dest) : x.k = "file" /\ (~\E i \in 1..n : Place(r.es[i].name) = x.p) /\ x \notin In, "a file that is no entry was changed")>>)>>)
=============================================================================
