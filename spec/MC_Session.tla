------------------------------ MODULE MC_Session ------------------------------
(***************************************************************************)
(* All writer sessions of up to MaxOps operations over a small alphabet,    *)
(* followed by a full iteration.  Checks the session model's own            *)
(* invariants and prints every finished session for replay on the code.     *)
(***************************************************************************)
EXTENDS Session, TLC, Json, FiniteSets

CONSTANTS MaxOps, Alphabet, MaxFiles, Size(_), Emit, SimLen

VARIABLES w, hist, seen, pos, prev
vars == <<w, hist, seen, pos, prev>>

\* an alphabet letter [op, ks, fail, m, on] stands for concrete arguments
Arg(k) == [nu |-> <<>>, dir |-> k \in {"dir", "dirdata", "antidir"}, anti |-> k \in {"anti", "antidir"},
           ct |-> <<>>, at |-> <<>>, mt |-> <<>>, attr |-> <<>>,
           rd |-> k \notin {"none", "dir", "anti", "antidir"}, n |-> L64(Size(k)), crc |-> <<0, 0>>, h |-> k]
Conc(a) == [op |-> a.op, as |-> [i \in 1..Len(a.ks) |-> Arg(a.ks[i])], fail |-> a.fail # "no",
            badm |-> w.meth = "bad", m |-> a.m, on |-> a.on]

Init == w = W0 /\ hist = <<>> /\ seen = <<>> /\ pos = 0 /\ prev = W0

Do(a) ==
  LET c == Conc(a)
      ok == IF c.op \in {"file", "solid"} THEN ~MustFail(w, c) ELSE TRUE
  IN /\ w' = Step(w, c, ok)
     /\ prev' = w
     /\ hist' = Append(hist, a)
     /\ UNCHANGED <<seen, pos>>
     /\ Len(w'.ent) <= MaxFiles

Adds == ~w.fin /\ Len(hist) < MaxOps /\ \E a \in Alphabet : Do(a)
Finish == /\ ~w.fin /\ Len(hist) >= SimLen /\ w' = [w EXCEPT !.fin = TRUE] /\ prev' = w
          /\ (Emit => PrintT("SC " \o ToJson([ops |-> hist])))
          /\ UNCHANGED <<hist, seen, pos>>

\* the iteration, one visit at a time
Ordered == LET inb(b) == SelectSeq([i \in 1..Len(w.ent) |-> i], LAMBDA i : BlockOf(w.ent, i) = b)
           IN Cat([b \in 1..Len(w.blk) |-> inb(b)]) \o inb(0)
Visit == /\ w.fin /\ pos < Len(w.ent)
         /\ pos' = pos + 1 /\ seen' = Append(seen, Ordered[pos + 1])
         /\ UNCHANGED <<w, hist, prev>>
Next == Adds \/ Finish \/ Visit
Spec == Init /\ [][Next]_vars

TypeOK == /\ Len(hist) <= MaxOps
          /\ \A i \in 1..Len(w.ent) : w.ent[i].blk \in 0..Len(w.blk)
\* entries with a stream are in one block, blocks are runs in the order of the adds
BlocksInOrder == \A i, j \in 1..Len(w.ent) :
                    i < j /\ w.ent[i].str /\ w.ent[j].str => w.ent[i].blk <= w.ent[j].blk
DirsHaveNoBytes == \A i \in 1..Len(w.ent) : w.ent[i].dir => ~w.ent[i].str
NeverTwice == \A i, j \in 1..Len(seen) : i # j => seen[i] # seen[j]
AllVisited == (w.fin /\ pos = Len(w.ent)) => Range(seen) = 1..Len(w.ent)
\* entries only ever get added, and a failed add adds none
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Monotone == [][IsPrefixOf(w.ent, w'.ent) /\ IsPrefixOf(w.blk, w'.blk)]_vars
FailedAddsLeaveNothing ==
  [][\A a \in Alphabet : (hist' = Append(hist, a) /\ a.fail # "no" /\ MustFail(w, Conc(a))) => w'.ent = w.ent /\ w'.blk = w.blk]_vars
=============================================================================
