------------------------------- MODULE J_Damage -------------------------------
(* Verdicts on damaged archives: C06.                                       *)
EXTENDS Damage, JudgeBase

V(r) == IF r.died # "" THEN "the run died: " \o r.died
        ELSE All(Len(r.outs), LAMBDA k :
               At("damage ", k, At(r.outs[k].at \o " ", 0,
                  IF r.rule = "same" THEN SameListing(r.outs[k], r.base, r.crcs) ELSE Consistent(r.outs[k]))))
=============================================================================
