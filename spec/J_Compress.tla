------------------------------ MODULE J_Compress ------------------------------
(***************************************************************************)
(* Compressions of trees: C17.                                              *)
(* r: died, res, how, whole, single (the root is a file), root (its name),   *)
(*    t [p, k, h, n, mt], rej (paths), open, end, list [nu (bytes), dir, mt], *)
(*    visits [i, st, h, n]                                                   *)
(***************************************************************************)
EXTENDS Tree, TLC, Verdict, JudgeBase

V(r) ==
  LET T == ToSet(r.t)
      W == Stored(T, ToSet(r.rej), r.whole)
      n == Len(r.list)
      \* a tree compressed as a whole may bring an entry for the root itself
      mine == {i \in 1..n : ~(r.whole /\ ~r.single /\ r.list[i].name = <<>> /\ r.list[i].dir)}
      \* the components of a path contain no slash; a stored name is one path only
      path(i) == Parts(r.list[i].name)
      node(i) == CHOOSE x \in W : x.p = path(i)
      visit(i) == LET v == SelectSeq(r.visits, LAMBDA x : x.i = i - 1) IN v
  IN IF r.died # "" THEN "the run died: " \o r.died
     ELSE IF r.res = "panic" THEN "panics"
     ELSE IF r.res # "ok" THEN "compression fails"
     ELSE First(<<
       If(r.open # "ok", "the archive does not open: " \o r.open),
       If(r.end # "ok", "the archive does not read: " \o r.end),
       If(Cardinality(mine) < n - 1, "more than one entry for the root"),
       IF r.single THEN
         First(<<If(Cardinality(mine) # (IF <<>> \in ToSet(r.rej) THEN 0 ELSE 1), "not one entry for the file"),
                 All(n, LAMBDA i : LET x == CHOOSE y \in T : TRUE
                                   IN First(<<If(r.list[i].dir, "a directory"), If(r.whole /\ r.list[i].name # r.root, "other name"),
                                              If(Len(visit(i)) # 1 \/ visit(i)[1].st # "ok" \/ visit(i)[1].h # x.h \/ visit(i)[1].n # x.n, "other content"),
                                              If(r.list[i].mt # <<TRUE, x.mt>>, "other modification time")>>))>>)
       ELSE
       First(<<
         If(\E i \in mine : path(i) \notin {x.p : x \in W}, "stores something that is not selected"),
         If({path(i) : i \in mine} # {x.p : x \in W}, "does not store everything selected"),
         If(Cardinality(mine) # Cardinality(W), "stores something twice"),
         All(n, LAMBDA i : IF i \notin mine \/ path(i) \notin {x.p : x \in W} THEN "" ELSE At("entry ", i, First(<<
            If(r.list[i].dir # (node(i).k = "dir"), "other kind"),
            If(r.list[i].mt # <<TRUE, node(i).mt>>, "other modification time"),
            IF node(i).k = "dir" THEN ""
            ELSE If(Len(visit(i)) # 1 \/ visit(i)[1].st # "ok" \/ visit(i)[1].h # node(i).h \/ visit(i)[1].n # node(i).n, "other content")>>)))>>)>>)
=============================================================================
