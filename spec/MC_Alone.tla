------------------------------- MODULE MC_Alone --------------------------------
(***************************************************************************)
(* The LZMA writer: a header or none, a declared size or none, an end marker *)
(* or none, a preset dictionary or none, then writes and the end.           *)
(*  left: what the declared size still allows (-1: none declared).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, Sizes, MaxOps, Declared, Emit, Lazy
\* Declared: relations of the declared size to what is going to be written

VARIABLES conf, ops, n, mode
vars == <<conf, ops, n, mode>>

Confs == [header : BOOLEAN, eos : BOOLEAN, exp : Declared, preset : BOOLEAN, ctor : {"new", "header", "noheader"}, close : {"finish", "empty"}]
\* a combination that says nowhere where the data ends, and such as a constructor does not offer
Sense(f) == /\ (f.header /\ f.exp = "none" => f.eos)
            /\ (f.ctor = "header" => f.header /\ f.eos = (f.exp = "none") /\ ~f.preset)
            /\ (f.ctor = "noheader" => ~f.header /\ f.exp = "none")
Init == conf \in {f \in Confs : Sense(f)} /\ ops = <<>> /\ n = 0 /\ mode = "open"
Write == /\ mode = "open" /\ Len(ops) < MaxOps
         /\ \E k \in Kinds, l \in Sizes : ops' = Append(ops, <<k, l>>) /\ n' = n + l
         /\ UNCHANGED <<conf, mode>>
Flush == mode = "open" /\ Len(ops) < MaxOps /\ ops' = Append(ops, <<"f", 0>>) /\ UNCHANGED <<conf, n, mode>>
\* what the caller has to be told
Outcome == IF conf.header /\ conf.preset THEN "refused" ELSE IF conf.exp \in {"none", "exact"} THEN "ok" ELSE "error"
Close == /\ mode = "open" /\ (Lazy => Len(ops) = MaxOps)
         /\ ~(conf.exp = "less" /\ n = 0)
         /\ mode' = Outcome /\ UNCHANGED <<conf, ops, n>>
Told == /\ mode \in {"ok", "error", "refused"} /\ mode' = mode \o "."
        /\ (Emit => PrintT("SC " \o ToJson([f |-> conf, ops |-> ops, res |-> mode])))
        /\ UNCHANGED <<conf, ops, n>>
Next == Write \/ Flush \/ Close \/ Told
Spec == Init /\ [][Next]_vars
\* data that is complete can be found again: its end is declared, marked, or known to who has no header
EndKnown == mode = "ok" => conf.eos \/ conf.exp = "exact" \/ ~conf.header
=============================================================================
