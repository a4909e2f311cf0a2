------------------------------ MODULE MC_Blocks -------------------------------
(***************************************************************************)
(* Decoders of single blocks.  Each works on a source with a cursor of its   *)
(* own, or they take turns on a common one.  A decoder finds the packed      *)
(* ranges of its block (several for a block with several packed streams)     *)
(* from the table of offsets and moves the cursor there before every read,   *)
(* so what it gets depends on nothing another decoder did.                   *)
(* Every order of decoding, with repetitions, is printed for replay.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NBlk, MaxJobs, Emit

\* packed streams of the blocks: block b has b of them, of 2 cells each; the cells hold their own number
Packs(b) == (b % 2) + 1
First(b) == LET RECURSIVE f(_) f(k) == IF k = 1 THEN 0 ELSE f(k - 1) + 2 * Packs(k - 1) IN f(b)
Cells(b) == {First(b) + i : i \in 0..(2 * Packs(b) - 1)}

VARIABLES jobs,      \* the blocks to decode, in the order in which the decoders are started
          common,    \* one source for all of them
          cur,       \* cursor per job (per source), or of the common source at index 0
          at,        \* per job: number of cells read, or -1 before it is started
          got,       \* per job: the cells read
          st
vars == <<jobs, common, cur, at, got, st>>

Init == jobs = <<>> /\ common \in BOOLEAN /\ cur = <<>> /\ at = <<>> /\ got = <<>> /\ st = "jobs"
Job == /\ st = "jobs" /\ Len(jobs) < MaxJobs
       /\ \E b \in 1..NBlk : jobs' = Append(jobs, b)
       /\ UNCHANGED <<common, cur, at, got, st>>
Go == /\ st = "jobs" /\ jobs # <<>> /\ st' = "run"
      /\ cur' = [j \in 0..Len(jobs) |-> 0] /\ at' = [j \in 1..Len(jobs) |-> 0] /\ got' = [j \in 1..Len(jobs) |-> <<>>]
      /\ (Emit => PrintT("SC " \o ToJson([jobs |-> jobs, common |-> common])))
      /\ UNCHANGED <<jobs, common>>
Src(j) == IF common THEN 0 ELSE j
Done(j) == at[j] = 2 * Packs(jobs[j])
\* a decoder of the common source runs alone
Turn(j) == ~common \/ \A k \in 1..Len(jobs) : k < j => Done(k)
Read(j) == /\ st = "run" /\ ~Done(j) /\ Turn(j)
           /\ LET pos == First(jobs[j]) + at[j]
              IN /\ cur' = [cur EXCEPT ![Src(j)] = pos + 1]
                 /\ got' = [got EXCEPT ![j] = Append(@, pos)]
           /\ at' = [at EXCEPT ![j] = @ + 1]
           /\ UNCHANGED <<jobs, common, st>>
Next == Job \/ Go \/ (st = "run" /\ \E j \in 1..Len(jobs) : Read(j))
Spec == Init /\ [][Next]_vars

\* whatever the interleaving, a decoder has read a beginning of its own block
OwnData == st = "run" => \A j \in 1..Len(jobs) :
             /\ \A k \in 1..Len(got[j]) : got[j][k] = First(jobs[j]) + k - 1
             /\ Done(j) => {got[j][k] : k \in 1..Len(got[j])} = Cells(jobs[j])
\* no cell belongs to two blocks, and each to one
Partition == /\ \A a, b \in 1..NBlk : a # b => Cells(a) \cap Cells(b) = {}
             /\ UNION {Cells(b) : b \in 1..NBlk} = 0..(First(NBlk) + 2 * Packs(NBlk) - 1)
=============================================================================
