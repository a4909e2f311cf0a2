------------------------------ MODULE J_Iterate ------------------------------
(* Verdicts on recorded iterations: C08, C20.                               *)
EXTENDS Iterate, Reading, JudgeBase

EntsIn(r) == IF r.foreign THEN LET h == Header(r.bytes) IN IF h.s # "ok" THEN Assert(FALSE, "bad record") ELSE HeaderEnts(h.v, r.srcs)
             ELSE Run(r.ops).w.ent
BlksIn(r) == IF r.foreign THEN Len(Header(r.bytes).v.streams.folders) ELSE Len(Run(r.ops).w.blk)

ReadOK(ents, nb, rd) ==
  IF rd.open # "ok" THEN "open: " \o rd.open
  ELSE IF Len(rd.list) # Len(ents) THEN "number of entries"
  ELSE First(<<IF rd.hasblocks THEN BlocksOK(ents, nb, rd.blocks) ELSE "",
       IF rd.mode \in {"blocks", "shared", "par"} THEN
         First(<<All(Len(rd.per), LAMBDA k :
                   LET p == rd.per[k] b == p.b + 1
                   IN At("block ", b, Judge(ents, OfBlock(ents, b), WithData(ents, b), rd.prog, p.visits, BlkEnd(p.end)))),
                 If({rd.per[k].b + 1 : k \in 1..Len(rd.per)} # {rd.order[k] + 1 : k \in 1..Len(rd.order)}, "blocks visited"),
                 \* the blocks together: every entry with data, once
                 IF rd.full THEN If(UNION {WithData(ents, b) : b \in 1..nb} # {i \in 1..Len(ents) : ents[i].str}, "cover") ELSE "">>)
       ELSE First(<<Judge(ents, All1(ents), All1(ents), rd.prog, rd.visits, rd.end),
                    IF rd.mode = "twice" THEN At("again, ", 2, Judge(ents, All1(ents), All1(ents), rd.prog, rd.visits2, rd.end2)) ELSE "">>)>>)
V(r) == IF r.died # "" THEN "the run died: " \o r.died
        ELSE IF ~r.foreign /\ Run(r.ops).why # "" THEN Run(r.ops).why
        ELSE LET e == EntsIn(r) IN All(Len(r.reads), LAMBDA k : At("read ", k, ReadOK(e, BlksIn(r), r.reads[k])))
=============================================================================
