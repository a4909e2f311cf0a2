------------------------------ MODULE JudgeBase ------------------------------
(***************************************************************************)
(* Walks over a file of recorded runs, one JSON record per line, in Chunks  *)
(* interleaved chains (so that TLC's workers share them), and evaluates     *)
(* Verdict on every record: "" when the specification allows the run.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Verdict(_), Chunks

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rec_at, verdict
JudgeRec(k) == LET q == Verdict(TraceLog[k])
               IN IF q = "" THEN "" ELSE IF PrintT("VERDICT " \o ToString(k) \o " " \o q) THEN q ELSE q
Chains == IF Chunks < Len(TraceLog) THEN Chunks ELSE Len(TraceLog)
Init == rec_at \in (1 - Chains)..0 /\ verdict = ""
Next == /\ rec_at + Chains <= Len(TraceLog)
        /\ rec_at' = rec_at + Chains
        /\ verdict' = JudgeRec(rec_at + Chains)
Spec == Init /\ [][Next]_<<rec_at, verdict>>
=============================================================================
