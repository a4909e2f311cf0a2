------------------------------ MODULE MC_Compress -----------------------------
(***************************************************************************)
(* Trees, grown node by node, and what a compression with a filter takes of *)
(* them, visited from the root downwards.                                   *)
(***************************************************************************)
EXTENDS Tree, TLC, Json

CONSTANTS NamesIn, Kinds, MaxNodes, MaxDepth, MaxReject, Emit, Lazy

VARIABLES t, rej, todo, took, phase
vars == <<t, rej, todo, took, phase>>
Init == t = {} /\ rej = {} /\ todo = {<<>>} /\ took = {} /\ phase = "grow"
Grow == /\ phase = "grow" /\ Cardinality(t) < MaxNodes
        /\ \E d \in {<<>>} \cup {x.p : x \in {y \in t : y.k = "dir" /\ Len(y.p) < MaxDepth}}, w \in NamesIn, k \in Kinds :
             /\ Append(d, w) \notin {x.p : x \in t}
             /\ t' = t \cup {[p |-> Append(d, w), k |-> k]}
        /\ UNCHANGED <<rej, todo, took, phase>>
Start == phase = "grow" /\ (Lazy => Cardinality(t) = MaxNodes) /\ phase' = "reject" /\ UNCHANGED <<t, rej, todo, took>>
Reject == /\ phase = "reject" /\ Cardinality(rej) < MaxReject
          /\ \E p \in {<<>>} \cup {x.p : x \in t} : p \notin rej /\ rej' = rej \cup {p}
          /\ UNCHANGED <<t, todo, took, phase>>
Go == /\ phase = "reject" /\ phase' = "walk" /\ UNCHANGED <<t, rej, todo, took>>
      /\ (Emit => PrintT("SC " \o ToJson([t |-> SetToSeq(t), rej |-> SetToSeq(rej)])))
\* one path of those to do: a directory that passes brings its own, a file is taken
Walk1 == /\ phase = "walk" /\ todo # {}
         /\ \E p \in todo :
              LET pass == p \notin rej
                  isdir == p = <<>> \/ [p |-> p, k |-> "dir"] \in t
                  below == {x.p : x \in {y \in t : y.k \in {"dir", "file"} /\ Len(y.p) = Len(p) + 1 /\ SubSeq(y.p, 1, Len(p)) = p}}
              IN /\ todo' = (todo \ {p}) \cup (IF pass /\ isdir THEN below ELSE {})
                 /\ took' = IF pass /\ ~isdir THEN took \cup {p} ELSE took
         /\ UNCHANGED <<t, rej, phase>>
Next == Grow \/ Start \/ Reject \/ Go \/ Walk1
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the walk, in whatever order, takes what is to be stored
Exactly == phase = "walk" /\ todo = {} => took = {x.p : x \in Stored(t, rej, FALSE)}
Sound == took \subseteq {x.p : x \in Stored(t, rej, FALSE)}
OnlyFiles == \A p \in took : [p |-> p, k |-> "file"] \in t
=============================================================================
