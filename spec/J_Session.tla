------------------------------ MODULE J_Session ------------------------------
(* Verdicts on recorded writer sessions: C01, C02, C18.                     *)
EXTENDS SessionJudge, JudgeBase

V(r) == CASE r.prop = "C01" -> SessionOK(r, {"core"})
          [] r.prop = "C02" -> SessionOK(r, {"core", "meta"})
          [] r.prop = "C18" -> SessionOK(r, {"core", "meta", "sums"})
=============================================================================
