------------------------------ MODULE MC_Iterate ------------------------------
(***************************************************************************)
(* Archives of a few blocks, a visitor program, and every iteration the      *)
(* specification allows.  The archive and program are printed for replay.    *)
(***************************************************************************)
EXTENDS Iterate, FiniteSets, Json

CONSTANTS MaxEnt, MaxBlk, MaxBlkLen, Specials, Emit

VARIABLES ops, prog, st, s
vars == <<ops, prog, st, s>>

N == 3            \* bytes of an entry with data
Kinds == {"data", "empty", "dir"}
Flat == Cat([k \in 1..Len(ops) |-> ops[k].ks])
\* block numbers: solid groups and single files with bytes
EntsOf ==
  FoldLeft(LAMBDA a, k :
     LET o == ops[k]
         blk == o.solid \/ o.ks[1] \in {"data", "empty"}
         nb == IF blk THEN a.b + 1 ELSE a.b
     IN [b |-> nb,
         e |-> a.e \o [j \in 1..Len(o.ks) |->
                 [str |-> blk /\ o.ks[j] # "dir" , blk |-> IF blk /\ o.ks[j] # "dir" THEN nb ELSE 0,
                  n |-> IF o.ks[j] = "data" THEN L64(N) ELSE Zero64, dir |-> o.ks[j] = "dir"]]],
     [b |-> 0, e |-> <<>>], [k \in 1..Len(ops) |-> k]).e

Acts == {[read |-> r, ret |-> t] : r \in {-1, 0, 1, N}, t \in {"go", "stop", "err", "ignore"}}
Plain == [read |-> -1, ret |-> "go"]

Init == ops = <<>> /\ prog = <<>> /\ st = "shape" /\ s = I0
Single == /\ st = "shape" /\ Len(Flat) < MaxEnt
          /\ \E k \in Kinds : ops' = Append(ops, [solid |-> FALSE, ks |-> <<k>>])
          /\ UNCHANGED <<prog, st, s>>
Solid == /\ st = "shape" /\ Len(Flat) < MaxEnt /\ Count(ops, LAMBDA o : o.solid) < MaxBlk
         /\ \E m \in 1..MinI(MaxBlkLen, MaxEnt - Len(Flat)) : \E ks \in [1..m -> Kinds] :
              ops' = Append(ops, [solid |-> TRUE, ks |-> ks])
         /\ UNCHANGED <<prog, st, s>>
Shaped == st = "shape" /\ ops # <<>> /\ st' = "prog" /\ UNCHANGED <<ops, prog, s>>
\* all entries get the plain action, except Specials of them
Program == /\ st = "prog" /\ Len(prog) < Len(Flat)
           /\ \/ prog' = Append(prog, Plain)
              \/ /\ Count(prog, LAMBDA a : a # Plain) < Specials
                 /\ \E a \in Acts \ {Plain} : prog' = Append(prog, a)
           /\ UNCHANGED <<ops, st, s>>
Start == /\ st = "prog" /\ Len(prog) = Len(Flat) /\ st' = "run"
         /\ (Emit => PrintT("SC " \o ToJson([ops |-> ops, prog |-> prog])))
         /\ UNCHANGED <<ops, prog, s>>

Outcomes(a, i) ==
  LET e == EntsOf[i]
      n == Int64(e.n)
      t == e.str /\ e.blk \in s.taint
      full == [st |-> "ok", rel |-> "eq", n |-> e.n]
      part(k) == [st |-> IF k = 0 THEN "skip" ELSE "part", rel |-> IF k = n THEN "eq" ELSE "prefix", n |-> L64(k)]
      fine == IF a.read < 0 \/ a.read > n THEN full ELSE part(a.read)
  IN {fine} \cup (IF t THEN {[st |-> "err", rel |-> "prefix", n |-> Zero64]} ELSE {})
Visit == /\ st = "run" /\ s.over = "no"
         /\ \E i \in All1(EntsOf) : /\ Next1(EntsOf, All1(EntsOf), s, i)
                                    /\ \E x \in Outcomes(prog[i], i) : s' = AfterVisit(EntsOf, s, i, prog[i], x)
         /\ UNCHANGED <<ops, prog, st>>
Finish == /\ st = "run"
          /\ \E e \in {"ok", "err", "err:visitor"} :
               /\ MayEnd(EntsOf, All1(EntsOf), All1(EntsOf), s, e)
               /\ st' = e
          /\ UNCHANGED <<ops, prog, s>>
Next == Single \/ Solid \/ Shaped \/ Program \/ Start \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

Once == \A j, k \in 1..Len(s.seen) : j # k => s.seen[j] # s.seen[k]
Ordered == \A j, k \in 1..Len(s.seen) :
             (j < k /\ Blk(EntsOf, s.seen[j]) = Blk(EntsOf, s.seen[k]) /\ Blk(EntsOf, s.seen[j]) # 0) => s.seen[j] < s.seen[k]
StopEnds == \A k \in 1..Len(s.seen) : prog[s.seen[k]].ret \in {"stop", "err"} => k = Len(s.seen)
\* an iteration that ends well was stopped or saw everything; one that fails was told to, or lost its place
EndsRight == /\ st = "ok" => (SeenSet(s) = All1(EntsOf) \/ s.over = "ok")
             /\ st = "err:visitor" => s.seen # <<>> /\ prog[s.seen[Len(s.seen)]].ret = "err"
             /\ st = "err" => \E i \in SeenSet(s) : prog[i].read >= 0 /\ prog[i].read < N
\* iterations cannot get stuck
NotStuck == (st = "run" /\ s.over = "no" /\ SeenSet(s) # All1(EntsOf)) =>
              \E i \in All1(EntsOf) : Next1(EntsOf, All1(EntsOf), s, i)
=============================================================================
