------------------------------- MODULE MC_Lzma --------------------------------
(***************************************************************************)
(* Streams, chunk by chunk and packet by packet.  Only lengths, distances    *)
(* and what the next chunk has to bring are kept; each behaviour ends in a    *)
(* complete stream, or in the first thing the format forbids.                *)
(*  Raw: one sequence of packets without chunks (LZMA).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Raw, Dict, Pre, Lits, Near, Lens, RawLens, Controls, MaxC, MaxP, Bads, Emit, Lazy

VARIABLES cs, n, base, rep, st, nd, np, ns, open, end
AllBytes == 0..255
AllLens == 2..273
SomeLens == {2, 3, 9, 10, 17, 18, 100, 272, 273}
vars == <<cs, n, base, rep, st, nd, np, ns, open, end>>

Init == /\ cs = (IF Raw THEN << [c |-> 224, pk |-> <<>>, n |-> 0] >> ELSE <<>>)
        /\ n = Pre /\ base = 0 /\ rep = <<1, 1, 1, 1>> /\ st = 0
        /\ nd = (Pre = 0) /\ np = TRUE /\ ns = TRUE /\ open = Raw /\ end = ""

LastC == cs[Len(cs)]
Put(pk) == cs' = [cs EXCEPT ![Len(cs)].pk = Append(@, pk)]
Room == open /\ end = "" /\ Len(LastC.pk) < MaxP
Keep == UNCHANGED <<base, nd, np, ns, open>>
Avail == IF n - base < Dict THEN n - base ELSE Dict
Dists == {d \in Near \cup {Avail, Avail - 1} : d >= 1 /\ d <= Avail}
TooFar == IF Bads /\ n - base < Dict - 1 THEN {n - base + 1, n - base + 2} ELSE {}
Lit == Room /\ \E b \in Lits : Put(<<0, b, 0>>) /\ n' = n + 1 /\ st' = (IF st < 4 THEN 0 ELSE IF st < 10 THEN st - 3 ELSE st - 6)
            /\ UNCHANGED <<rep, end>> /\ Keep
Match == Room /\ \E d \in Dists \cup TooFar, l \in Lens :
            /\ Put(<<1, d, l>>) /\ n' = n + l /\ st' = (IF st < 7 THEN 7 ELSE 10)
            /\ rep' = <<d, rep[1], rep[2], rep[3]>>
            /\ end' = IF d > Avail THEN "dist" ELSE ""
            /\ Keep
RepOK(d) == d <= Avail \/ (Bads /\ n - base < d /\ d < Dict)
RepM == Room /\ \E k \in 0..3, l \in Lens :
            LET d == rep[k + 1]
            IN /\ RepOK(d)
               /\ Put(<<3, k, l>>) /\ n' = n + l /\ st' = (IF st < 7 THEN 8 ELSE 11)
               /\ rep' = <<d>> \o [i \in 1..3 |-> IF i <= k THEN rep[i] ELSE rep[i + 1]]
               /\ end' = IF d > Avail THEN "dist" ELSE ""
               /\ Keep
Short == Room /\ RepOK(rep[1])
              /\ Put(<<2, 0, 1>>) /\ n' = n + 1 /\ st' = (IF st < 7 THEN 9 ELSE 11)
              /\ end' = (IF rep[1] > Avail THEN "dist" ELSE "")
              /\ UNCHANGED rep /\ Keep
\* chunks
Dres(c) == c = 1 \/ c >= 224
Illegal(c) == (nd /\ ~Dres(c)) \/ c \in 3..127 \/ (c \in 128..191 /\ np)
Shut == IF open THEN LastC.pk # <<>> ELSE TRUE
Closed == ~Raw /\ end = "" /\ Shut /\ Len(cs) < MaxC
Stored == Closed /\ \E c \in Controls \cap {1, 2}, l \in RawLens :
            /\ (Illegal(c) => Bads)
            /\ cs' = Append(cs, [c |-> c, pk |-> <<>>, n |-> l])
            /\ end' = (IF Illegal(c) THEN "order" ELSE "")
            /\ n' = n + l /\ base' = (IF c = 1 THEN n ELSE base)
            /\ nd' = FALSE /\ np' = (np \/ c = 1) /\ ns' = TRUE /\ open' = FALSE
            /\ UNCHANGED <<rep, st>>
Coded == Closed /\ \E c \in {x \in Controls : x >= 3} :
            /\ (Illegal(c) => Bads)
            /\ ~(c \in 128..159 /\ ns /\ ~Illegal(c))           \* what follows depends on the decoder
            /\ cs' = Append(cs, [c |-> c, pk |-> IF Illegal(c) THEN << <<0, 7, 0>> >> ELSE <<>>, n |-> 0])
            /\ end' = (IF Illegal(c) THEN "order" ELSE "")
            /\ base' = (IF Dres(c) THEN n ELSE base)
            /\ rep' = (IF c >= 160 THEN <<1, 1, 1, 1>> ELSE rep) /\ st' = (IF c >= 160 THEN 0 ELSE st)
            /\ nd' = FALSE /\ np' = FALSE /\ ns' = FALSE /\ open' = TRUE
            /\ UNCHANGED n
Done == /\ end = "" /\ (Raw \/ Shut)
        /\ (Lazy => IF Raw THEN Len(LastC.pk) = MaxP ELSE Len(cs) = MaxC)
        /\ end' = "ok" /\ UNCHANGED <<cs, n, base, rep, st, nd, np, ns, open>>
Told == /\ end \in {"ok", "dist", "order"}
        /\ (Emit /\ Lazy) => PrintT("SC " \o ToJson([cs |-> cs, end |-> end, n |-> n]))
        /\ end' = end \o "."
        /\ UNCHANGED <<cs, n, base, rep, st, nd, np, ns, open>>
Next == Lit \/ Match \/ RepM \/ Short \/ Stored \/ Coded \/ Done \/ (Lazy /\ Told)
Spec == Init /\ [][Next]_vars

StateOK == st \in 0..11 /\ (end = "" => base <= n)
RepsOK == (open /\ end \in {"", "ok"}) => (st >= 7 => (rep[1] <= n - base /\ rep[1] <= Dict))
Emitted == (Emit /\ ~Lazy /\ end # "") => PrintT("SC " \o ToJson([cs |-> cs, end |-> end, n |-> n]))
=============================================================================
