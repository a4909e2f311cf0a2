------------------------------- MODULE MC_Blank -------------------------------
(***************************************************************************)
(* An archive whose start header is zero, and the search for its header.    *)
(* A file is packed data followed by the header; both may contain bytes      *)
(* that look like a header of some kind:                                    *)
(*   broken  the grammar forbids it        short  a header that ends before  *)
(*   free    a header up to the end of the file, that describes no streams   *)
(*   match   ... whose streams end where it starts, as a real one's do       *)
(* The search looks at every position from the end; what is found once is    *)
(* the archive, what is found twice cannot be told apart.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEntries, Emit
VARIABLES pc, ents, hdr, at, found, res
vars == <<pc, ents, hdr, at, found, res>>

InData == {"no", "broken", "short"}                    \* packed data never reaches the end of the file
InName == {"no", "broken", "short", "free", "match"}
\* names can be seen only when the header is stored as it is
Init == pc = "write" /\ ents = <<>> /\ hdr \in {"plain", "packed", "encrypted"} /\ at = 0 /\ found = <<>> /\ res = "none"
Add == /\ pc = "write" /\ Len(ents) < MaxEntries
       /\ \E d \in InData, n \in InName, k \in {"data", "empty", "dir"} :
            /\ k # "data" => d = "no"
            /\ ents' = Append(ents, [d |-> d, n |-> n, k |-> k])
       /\ UNCHANGED <<pc, hdr, at, found, res>>
\* the file as the search sees it, from the front
Seen(x, l) == IF x = "no" THEN <<>> ELSE <<[what |-> x, of |-> l]>>
Real == [what |-> IF \E i \in 1..Len(ents) : ents[i].k = "data" THEN "match" ELSE IF hdr = "plain" THEN "free" ELSE "match", of |-> 0]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Layout == Flat([i \in 1..Len(ents) |-> Seen(ents[i].d, i)]) \o <<Real>>
          \o (IF hdr = "plain" THEN Flat([i \in 1..Len(ents) |-> Seen(ents[i].n, i)]) ELSE <<>>)
Blank == pc = "write" /\ Len(ents) > 0 /\ pc' = "search" /\ at' = Len(Layout) /\ UNCHANGED <<ents, hdr, found, res>>
Look == /\ pc = "search" /\ at > 0
        /\ found' = IF Layout[at].what \in {"free", "match"} THEN Append(found, Layout[at].of) ELSE found
        /\ at' = at - 1
        /\ UNCHANGED <<pc, ents, hdr, res>>
Decide == /\ pc = "search" /\ at = 0 /\ pc' = "over"
          /\ res' = IF Len(found) = 1 THEN (IF found[1] = 0 THEN "original" ELSE "ghost") ELSE "error"
          /\ (Emit => PrintT("SC " \o ToJson([ents |-> ents, hdr |-> hdr])))
          /\ UNCHANGED <<ents, hdr, at, found>>
Next == Add \/ Blank \/ Look \/ Decide
Spec == Init /\ [][Next]_vars

NeverWrong == res # "ghost"
Alone == ~\E i \in 1..Len(ents) : hdr = "plain" /\ ents[i].n \in {"free", "match"}
FoundWhenAlone == (pc = "over" /\ Alone) => res = "original"
=============================================================================
