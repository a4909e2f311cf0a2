------------------------------- MODULE J_Split --------------------------------
(* C07: the same bytes and the same success, however reads are split.       *)
EXTENDS Reading, JudgeBase

\* all that may be compared of a visit: whether it succeeded, and its bytes if so
SameVisit(a, b) == First(<<If(a.st # b.st, "reading " \o b.st \o " instead of " \o a.st),
                           If(a.st = "ok" /\ (a.n # b.n \/ a.h # b.h), "other bytes")>>)
FindV(vs, i) == IF \E k \in 1..Len(vs) : vs[k].i = i THEN <<vs[CHOOSE k \in 1..Len(vs) : vs[k].i = i]>> ELSE <<>>
SameRead(a, b) ==
  IF b.open \notin {"ok", "err", "err:password_required"} THEN "open: " \o b.open
  ELSE IF a.open # b.open THEN "open: " \o b.open \o " instead of " \o a.open
  ELSE IF a.open # "ok" THEN ""
  ELSE First(<<If(a.list # b.list, "listing"),
               If(a.end # b.end, "iteration: " \o b.end \o " instead of " \o a.end),
               If({a.visits[k].i : k \in 1..Len(a.visits)} # {b.visits[k].i : k \in 1..Len(b.visits)}, "entries visited"),
               All(Len(a.visits), LAMBDA k :
                 LET q == FindV(b.visits, a.visits[k].i)
                 IN IF q = <<>> THEN "" ELSE At("entry ", a.visits[k].i + 1, SameVisit(a.visits[k], q[1])))>>)
VRead(r) == IF Len(r.reads) = 0 THEN "no reads"
            ELSE All(Len(r.reads) - 1, LAMBDA k : At("split ", k, SameRead(r.reads[1], r.reads[k + 1])))
Right(r) == LET h == Header(r.bytes)
            IN IF h.s # "ok" \/ Len(r.srcs) # Len(h.v.files) THEN Assert(FALSE, "bad record")
               ELSE LET e == HeaderEnts(h.v, r.srcs)
                        rd == r.reads[1]
                    IN IF rd.open # "ok" THEN "open: " \o rd.open
                       ELSE First(<<If(rd.end # "ok", "iteration: " \o rd.end), FullVisits(e, rd.visits)>>)
V(r) == IF r.died # "" THEN "the run died: " \o r.died
        ELSE CASE r.kind = "w" -> SessionOK(r, {"core", "meta", "sums"})
               [] r.kind = "r" -> First(<<VRead(r), IF r.whole THEN Right(r) ELSE "">>)
=============================================================================
