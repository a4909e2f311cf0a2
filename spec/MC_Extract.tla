------------------------------ MODULE MC_Extract ------------------------------
(***************************************************************************)
(* Archives with entries of arbitrary names, extracted entry by entry.      *)
(***************************************************************************)
EXTENDS Tree, TLC, Json

CONSTANTS Words, MaxWords, MaxEntries, Emit, Lazy
\* Words: texts of components: "a", "..", ".", "" (two slashes in a row), "/" at the front makes the name absolute

VARIABLES es, cur, fs, at, res
vars == <<es, cur, fs, at, res>>

Bytes(w) == CASE w = "a" -> <<97>> [] w = "b" -> <<98>> [] w = ".." -> Up [] w = "." -> <<Dot>> [] w = "" -> <<>> [] w = "..." -> <<Dot, Dot, Dot>> [] w = "back" -> <<97, 92, 98>>
                  [] w = "..a" -> <<Dot, Dot, 97>> [] w = "long" -> [i \in 1..40 |-> 108]
Join(ws) == FoldLeft(LAMBDA n, i : IF i = 1 THEN Bytes(ws[1]) ELSE n \o <<Slash>> \o Bytes(ws[i]), <<>>, [i \in 1..Len(ws) |-> i])
Init == es = <<>> /\ cur = <<>> /\ fs = {} /\ at = 0 /\ res = "making"
\* a name is put together word by word
Word == /\ res = "making" /\ Len(es) < MaxEntries /\ Len(cur) < MaxWords
        /\ \E w \in Words : cur' = Append(cur, w)
        /\ UNCHANGED <<es, fs, at, res>>
Compose == /\ res = "making" /\ cur # <<>>
           /\ \E d \in BOOLEAN : es' = Append(es, [ws |-> cur, dir |-> d])
           /\ cur' = <<>> /\ UNCHANGED <<fs, at, res>>
Begin == res = "making" /\ cur = <<>> /\ (Lazy => Len(es) = MaxEntries) /\ es # <<>> /\ res' = "going" /\ UNCHANGED <<es, cur, fs, at>>
Extract ==
  /\ res = "going" /\ at < Len(es)
  /\ LET e == es[at + 1]
         n == Join(e.ws)
         r == Put(fs, Place(n), e.dir, at + 1)
     IN IF LeadsOut(n) THEN res' = "refused" /\ UNCHANGED fs
        ELSE IF Odd(n, e.dir) THEN res' \in {"going", "refused"} /\ fs' = r.fs
        ELSE IF ~r.ok THEN res' = "failed" /\ UNCHANGED fs
        ELSE res' = "going" /\ fs' = r.fs
  /\ at' = at + 1 /\ UNCHANGED <<es, cur>>
End == /\ (res = "going" => at = Len(es)) /\ res \in {"going", "refused", "failed"}
       /\ res' = (IF res = "going" THEN "done" ELSE "over")
       /\ (Emit => PrintT("SC " \o ToJson([es |-> es])))
       /\ UNCHANGED <<es, cur, fs, at>>
Next == Word \/ Compose \/ Begin \/ Extract \/ End
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Inside == \A x \in fs : x.p # <<>> /\ \A i \in 1..Len(x.p) : x.p[i] # Up /\ x.p[i] \notin Here
Rooted == \A x \in fs : Above(x.p) \subseteq Dirs(fs)
OneKind == Dirs(fs) \cap FilesAt(fs) = {}
NothingElse == \A x \in fs : \E i \in 1..at : x.p \in Prefs(Place(Join(es[i].ws)))
\* an extraction that comes to its end has made every entry, unless a later one of the same name replaced it
Complete == res = "done" => \A i \in 1..Len(es) :
   LET p == Place(Join(es[i].ws)) IN p = <<>> \/ Odd(Join(es[i].ws), es[i].dir) \/ (IF es[i].dir THEN p \in Dirs(fs) ELSE p \in FilesAt(fs))
Refusal == (\E i \in 1..at : LeadsOut(Join(es[i].ws))) => res \in {"refused", "over"}
=============================================================================
