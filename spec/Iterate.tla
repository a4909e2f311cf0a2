------------------------------- MODULE Iterate --------------------------------
(***************************************************************************)
(* Iteration over an archive with a visitor.  The state is                  *)
(*   seen   the entries handed to the visitor so far (a sequence of indices)*)
(*   taint  the blocks in which an entry was left before all of its bytes    *)
(*          were taken: later entries of the block may fail, never lie       *)
(*   over   "no", or how the iteration ended: "ok" | "err" | "err:visitor"   *)
(* The visitor's program gives for each entry how much it reads (-1: up to   *)
(* the end) and what it answers: go (propagating read errors), ignore (going *)
(* on after read errors), stop or err.                                       *)
(***************************************************************************)
EXTENDS SessionJudge, FiniteSets

I0 == [seen |-> <<>>, taint |-> {}, over |-> "no"]
SeenSet(s) == {s.seen[k] : k \in 1..Len(s.seen)}

\* may entry i come next?  (scope: the entries this iteration is about.)  Of the entries with data of a
\* block, those before it must have been visited; the others may come at any time.
Blk(ents, i) == IF ents[i].str THEN ents[i].blk ELSE 0
Next1(ents, scope, s, i) ==
  /\ s.over = "no"
  /\ i \in scope
  /\ i \notin SeenSet(s)
  /\ ents[i].str => \A j \in scope : (j < i /\ Blk(ents, j) = Blk(ents, i)) => j \in SeenSet(s)

\* what the visitor may see of entry i: "" or what is wrong
Delivered(ents, s, i, a, x) ==
  LET e == ents[i]
      t == ents[i].str /\ Blk(ents, i) \in s.taint
      small == Int64(e.n)
  IN CASE x.st \in {"ok"} -> If(x.rel # "eq" \/ x.n # e.n, "complete with other bytes")
       [] x.st \in {"part", "skip"} ->
            First(<<If(a.read < 0, "left early"),
                    If(a.read > small, "more bytes than the entry has"),
                    If(x.rel \notin {"eq", "prefix"} /\ ~t, "other bytes")>>)
       [] x.st = "err" -> If(~t, "a read failed")
       [] OTHER -> x.st

\* was the entry left before all of its bytes were taken?
Left(ents, i, x) == x.st \in {"part", "skip", "err"} /\ x.n # ents[i].n
AfterVisit(ents, s, i, a, x) ==
  [seen |-> Append(s.seen, i),
   taint |-> IF ents[i].str /\ Left(ents, i, x) THEN s.taint \cup {Blk(ents, i)} ELSE s.taint,
   over |-> CASE x.st = "err" /\ a.ret # "ignore" -> "err"
              [] a.ret = "stop" -> "ok"
              [] a.ret = "err" -> "err:visitor"
              [] OTHER -> "no"]

\* the iteration returned e without calling the visitor again
MayEnd(ents, scope, need, s, e) ==
  CASE s.over # "no" -> e = s.over \/ (s.over = "err" /\ e = "err:injected")
    [] e = "ok" -> need \subseteq SeenSet(s)
    [] e = "err" -> s.taint # {}
    [] OTHER -> FALSE

\* a recorded iteration
Judge(ents, scope, need, prog, visits, end) ==
  LET r == FoldLeft(LAMBDA q, k :
             IF q.why # "" THEN q
             ELSE LET x == visits[k] i == x.i + 1
                  IN IF i \notin 1..Len(ents) THEN [q EXCEPT !.why = "visit of something that is no entry"]
                     ELSE IF q.s.over # "no" THEN [q EXCEPT !.why = "visited again after the end (" \o q.s.over \o ")"]
                     ELSE IF i \notin scope THEN [q EXCEPT !.why = "entry " \o ToString(i) \o " is not of this block"]
                     ELSE IF i \in SeenSet(q.s) THEN [q EXCEPT !.why = "entry " \o ToString(i) \o " visited twice"]
                     ELSE IF ~Next1(ents, scope, q.s, i) THEN [q EXCEPT !.why = "entry " \o ToString(i) \o " out of order"]
                     ELSE [s |-> AfterVisit(ents, q.s, i, prog[i], x),
                           why |-> At("entry ", i, Delivered(ents, q.s, i, prog[i], x))],
             [s |-> I0, why |-> ""], [k \in 1..Len(visits) |-> k])
  IN IF r.why # "" THEN r.why
     ELSE If(~MayEnd(ents, scope, need, r.s, end), "ended with " \o end \o " in state " \o r.s.over \o ", "
                \o ToString(Len(visits)) \o " visits for " \o ToString(Cardinality(need)) \o " entries")

All1(ents) == 1..Len(ents)
OfBlock(ents, b) == {i \in 1..Len(ents) : BlockOf(ents, i) = b}
WithData(ents, b) == {i \in 1..Len(ents) : ents[i].str /\ ents[i].blk = b}
\* a block decoder on its own answers FALSE ("stopped") when the visitor stopped it
BlkEnd(e) == IF e = "stopped" THEN "ok" ELSE e
=============================================================================
