------------------------------- MODULE Verdict -------------------------------
(* Verdicts are strings: "" when all is well, or the first thing that is not. *)
EXTENDS Integers, Sequences, TLC
First(ss) == LET bad == SelectSeq(ss, LAMBDA s : s # "") IN IF bad = <<>> THEN "" ELSE bad[1]
At(what, i, s) == IF s = "" THEN "" ELSE what \o ToString(i) \o ": " \o s
All(n, F(_)) == First([i \in 1..n |-> F(i)])
If(c, s) == IF c THEN s ELSE ""
=============================================================================
