----------------------------- MODULE J_SecretTree ------------------------------
(***************************************************************************)
(* Trees compressed under a password, by the helper functions or by hand:   *)
(* what the file gives away: C15.                                           *)
(* r: died, res, t [p, k, h, n], whole, rej, enc (a password was given), hdr, *)
(*    names, datas: for each node in the order of t whether it was found in  *)
(*    the file (names and contents too short to tell are never "found"),     *)
(*    tries [right, open, end, names, visits [st, h, n]]                     *)
(***************************************************************************)
EXTENDS Tree, TLC, Verdict, JudgeBase

Z4 == <<0, 0, 0, 0>>
\* more than a handful of bytes: few of them may come out right under a wrong key by chance
Telling(n) == n[1] >= 8 \/ n[2] > 0 \/ n[3] > 0 \/ n[4] > 0
V(r) ==
  LET T == {r.t[i] : i \in 1..Len(r.t)}
      W == Stored({[p |-> x.p, k |-> x.k] : x \in T}, ToSet(r.rej), r.whole)
      Has(x) == \E y \in W : y.p = x.p /\ y.k = x.k
      secret == r.enc /\ \E x \in T : Has(x) /\ x.k = "file" /\ x.n # Z4
      hashes == {x.h : x \in {y \in T : y.k = "file" /\ y.n # Z4}}
      locked == secret /\ r.hdr
      Try(t) == First(<<
        If(Len(t.open) >= 5 /\ SubSeq(t.open, 1, 5) = "panic", "panics"),
        If(locked /\ ~t.right /\ t.open = "ok", "lists the entries without the password"),
        If((t.right \/ ~r.hdr) /\ t.open # "ok", "opening fails: " \o t.open),
        If(t.right /\ t.end # "ok", "reading fails under the password: " \o t.end),
        If((r.enc /\ \E x \in T : Has(x) /\ x.k = "file" /\ Telling(x.n)) /\ ~t.right /\ t.open = "ok" /\ t.end = "ok", "no error without the password"),
        If(r.enc /\ ~t.right /\ \E k \in 1..Len(t.visits) : t.visits[k].st = "ok" /\ Telling(t.visits[k].n) /\ t.visits[k].h \in hashes,
           "delivers an encrypted entry without the password")>>)
  IN IF r.died # "" THEN "the run died: " \o r.died
     ELSE IF r.res # "ok" THEN "compression ends as " \o r.res
     ELSE First(<<
       IF locked THEN All(Len(r.t), LAMBDA i : If(r.names[i], "the name of node " \o ToString(i) \o " is in the file in clear")) ELSE "",
       IF secret THEN All(Len(r.t), LAMBDA i : If(r.t[i].k = "file" /\ r.datas[i], "bytes of node " \o ToString(i) \o " are in the file in clear")) ELSE "",
       All(Len(r.tries), LAMBDA k : At("attempt ", k, Try(r.tries[k])))>>)
=============================================================================
