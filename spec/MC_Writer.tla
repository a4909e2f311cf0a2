------------------------------- MODULE MC_Writer -------------------------------
(***************************************************************************)
(* The LZMA2 writer as a machine: bytes wait in a window, become chunks,     *)
(* compressed or stored, and each chunk says what it resets.                *)
(*  ops: what the user did: <<"w", kind, n>> a write, <<"f">> a flush.       *)
(*  cs:  the chunks, <<control, unpacked>>.                                  *)
(* A chunk may be written at any write once Room cells wait, and everything  *)
(* that waits has to become chunks at a flush or at the end.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Sizes, MaxOps, Room, Most, Preset, Emit, Lazy

VARIABLES ops, n, pend, cs, nd, np, ns, mode
vars == <<ops, n, pend, cs, nd, np, ns, mode>>

Init == /\ ops = <<>> /\ n = 0 /\ pend = 0 /\ cs = <<>>
        /\ nd = ~Preset /\ np = TRUE /\ ns = TRUE
        /\ mode = "open"        \* open, flush, finish, done, told
MinI(a, b) == IF a < b THEN a ELSE b
\* the control byte of a compressed chunk
Control == IF np THEN (IF nd THEN 224 ELSE 192) ELSE IF ns THEN 160 ELSE 128
Write == /\ mode = "open" /\ Len(ops) < MaxOps
         /\ \E k \in Kinds, l \in Sizes : ops' = Append(ops, <<k, l>>) /\ n' = n + l /\ pend' = pend + l
         /\ UNCHANGED <<cs, nd, np, ns, mode>>
Flush == /\ mode = "open" /\ Len(ops) < MaxOps
         /\ ops' = Append(ops, <<"f", 0>>) /\ mode' = "flush" /\ UNCHANGED <<n, pend, cs, nd, np, ns>>
Finish == mode = "open" /\ (Lazy => Len(ops) = MaxOps) /\ mode' = "finish" /\ UNCHANGED <<ops, n, pend, cs, nd, np, ns>>
Due == pend > 0 /\ (mode \in {"flush", "finish"} \/ (mode = "open" /\ pend >= Room))
Coded == /\ Due
         /\ \E l \in {pend, MinI(pend, Most)} :
              /\ cs' = Append(cs, <<Control, l>>) /\ pend' = pend - l
         /\ np' = FALSE /\ nd' = FALSE /\ ns' = FALSE /\ UNCHANGED <<ops, n, mode>>
Stored == /\ Due
          /\ \E l \in {pend, MinI(pend, Most)} :
               /\ cs' = Append(cs, <<IF nd THEN 1 ELSE 2, l>>) /\ pend' = pend - l
          /\ nd' = FALSE /\ ns' = TRUE /\ UNCHANGED <<ops, n, mode, np>>
Flushed == mode = "flush" /\ pend = 0 /\ mode' = "open" /\ UNCHANGED <<ops, n, pend, cs, nd, np, ns>>
End == mode = "finish" /\ pend = 0 /\ mode' = "done" /\ UNCHANGED <<ops, n, pend, cs, nd, np, ns>>
Told == /\ mode = "done" /\ mode' = "told"
        /\ (Emit => PrintT("SC " \o ToJson([ops |-> ops])))
        /\ UNCHANGED <<ops, n, pend, cs, nd, np, ns>>
Next == Write \/ Flush \/ Finish \/ Coded \/ Stored \/ Flushed \/ End \/ Told
Spec == Init /\ [][Next]_vars /\ WF_vars(Coded \/ Flushed \/ End \/ Told \/ Finish)

----------------------------------------------------------------------------
\* whether a decoder can follow: what each chunk needs has been there
RECURSIVE Follows(_, _)
Follows(q, s) ==
  IF q = <<>> THEN TRUE
  ELSE LET c == q[1][1]
       IN CASE c = 1 -> Follows(Tail(q), [nd |-> FALSE, np |-> TRUE, ns |-> TRUE])
            [] c = 2 -> ~s.nd /\ Follows(Tail(q), [s EXCEPT !.ns = TRUE])
            [] c = 128 -> ~s.nd /\ ~s.np /\ ~s.ns /\ Follows(Tail(q), s)
            [] c = 160 -> ~s.nd /\ ~s.np /\ Follows(Tail(q), [s EXCEPT !.ns = FALSE])
            [] c = 192 -> ~s.nd /\ Follows(Tail(q), [nd |-> FALSE, np |-> FALSE, ns |-> FALSE])
            [] c = 224 -> Follows(Tail(q), [nd |-> FALSE, np |-> FALSE, ns |-> FALSE])
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Total(Tail(q))
LegalOrder == Follows(cs, [nd |-> ~Preset, np |-> TRUE, ns |-> TRUE])
Conserved == Total(cs) + pend = n
Complete == mode \in {"done", "told"} => Total(cs) = n
=============================================================================
