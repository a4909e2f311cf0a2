----------------------------- MODULE J_Malformed ------------------------------
(* Verdicts on arbitrary input: C05.                                        *)
EXTENDS Malformed, JudgeBase
V(r) == CASE r.rule = "header" -> HeaderRule(r)
          [] r.rule = "inner" -> InnerRule(r)
=============================================================================
