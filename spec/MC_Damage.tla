------------------------------ MODULE MC_Damage -------------------------------
(***************************************************************************)
(* Entries of a block as runs of cells; the stored form is damaged by an     *)
(* adversary (cells changed, removed, inserted, swapped), decoded, and       *)
(* delivered entry by entry by a reader that counts and sums what it         *)
(* delivers.  Without the checksum the reader still keeps to the lengths.    *)
(* The damages are printed for replay on real archives.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lens,       \* lengths of the entries
          MaxHits, Emit

Total == LET RECURSIVE f(_) f(k) == IF k = 0 THEN 0 ELSE f(k - 1) + Lens[k] IN f(Len(Lens))
Start(e) == LET RECURSIVE f(_) f(k) == IF k = 1 THEN 0 ELSE f(k - 1) + Lens[k - 1] IN f(e)
\* cells hold their position; a changed cell holds -1
VARIABLES cells, hits, e, got, done, fail
vars == <<cells, hits, e, got, done, fail>>
Init == cells = [i \in 1..Total |-> i] /\ hits = <<>> /\ e = 1 /\ got = <<>> /\ done = <<>> /\ fail = FALSE
Put(c, i, x) == SubSeq(c, 1, i - 1) \o <<x>> \o SubSeq(c, i + 1, Len(c))
Hit == /\ Len(hits) < MaxHits /\ e = 1 /\ got = <<>> /\ done = <<>>
       /\ \E i \in 1..Len(cells) :
            \E k \in {"change", "remove", "insert", "swap", "cut"} :
               /\ cells' = CASE k = "change" -> Put(cells, i, -1)
                             [] k = "remove" -> SubSeq(cells, 1, i - 1) \o SubSeq(cells, i + 1, Len(cells))
                             [] k = "insert" -> SubSeq(cells, 1, i) \o <<-1>> \o SubSeq(cells, i + 1, Len(cells))
                             [] k = "swap" -> IF i = Len(cells) THEN cells ELSE Put(Put(cells, i, cells[i + 1]), i + 1, cells[i])
                             [] k = "cut" -> SubSeq(cells, 1, i - 1)
               /\ hits' = Append(hits, [k |-> k, i |-> i])
       /\ (Emit => PrintT("SC " \o ToJson(hits')))
       /\ UNCHANGED <<e, got, done, fail>>
\* the reader
Pos == Start(e) + Len(got)
Deliver == /\ e <= Len(Lens) /\ ~fail /\ Len(got) < Lens[e]
           /\ IF Pos + 1 <= Len(cells) THEN got' = Append(got, cells[Pos + 1]) /\ fail' = FALSE
              ELSE fail' = TRUE /\ got' = got                      \* the stream ends early
           /\ UNCHANGED <<cells, hits, e, done>>
Right(k, g) == g = [i \in 1..Lens[k] |-> Start(k) + i]
Close == /\ e <= Len(Lens) /\ ~fail /\ Len(got) = Lens[e]
         /\ IF Right(e, got) THEN done' = Append(done, got) /\ e' = e + 1 /\ got' = <<>> /\ fail' = FALSE
            ELSE fail' = TRUE /\ UNCHANGED <<done, e, got>>         \* the checksum differs
         /\ UNCHANGED <<cells, hits>>
Next == Hit \/ Deliver \/ Close
Spec == Init /\ [][Next]_vars
L232 == <<2, 3, 2>>
L22 == <<2, 2>>
NeverWrong == \A k \in 1..Len(done) : Right(k, done[k])
\* undamaged archives are delivered in full
NoFalseError == (cells = [i \in 1..Total |-> i]) => ~fail
=============================================================================
