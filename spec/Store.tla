-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The output of a writer as a device sees it, and what a reader makes of   *)
(* it when the writing stops somewhere.                                     *)
(*                                                                         *)
(* What a record of the code is judged by:                                  *)
(*   UnfinishedOK  reading an image that is not known to be complete gives  *)
(*                 an error, or exactly the entries of the whole session    *)
(*   FaultOK       an operation during which the device failed reports an   *)
(*                 error, and an archive reported as finished holds exactly  *)
(*                 the entries reported as added                            *)
(*   SourceFaultOK a failure of the source shows, and nothing short of an    *)
(*                 entry is delivered as the entry                          *)
(*   BlankOK       a zeroed start header: the archive or an error, and the    *)
(*                 archive when nothing else looks like a header            *)
(***************************************************************************)
EXTENDS SessionJudge

IsErr(s) == s \in {"err", "err:injected", "err:password_required"}

UnfinishedOK(w, rd) ==
  IF IsErr(rd.open) THEN ""
  ELSE IF rd.open # "ok" THEN "open: " \o rd.open
  ELSE First(<<ListOK(w.ent, rd.list, {"core", "meta"}),
               IF IsErr(rd.end)
               THEN All(Len(rd.visits), LAMBDA k :
                      LET x == rd.visits[k]
                      IN IF x.i < 0 THEN "visited something that is no entry"
                         ELSE IF x.st = "ok" THEN At("visit ", k, VisitOK(w.ent, x))
                         ELSE If(x.st # "err", "visit: " \o x.st))
               ELSE IF rd.end # "ok" THEN "iteration: " \o rd.end
               ELSE FullVisits(w.ent, rd.visits)>>)

\* r.ops[k].hit: the device failed (in a way that has to show) while operation k ran;
\* before the first hit operations go as ever, after it only what is said about success counts
FaultOK(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET n == Len(r.ops)
           hits == {k \in 1..n : r.ops[k].hit}
           first == IF hits = {} THEN n + 1 ELSE CHOOSE k \in hits : \A j \in hits : k <= j
           s == FoldLeft(LAMBDA w, k : Step(w, r.ops[k], r.ops[k].res = "ok"), W0, [k \in 1..n |-> k])
           befo == Run(SubSeq(r.ops, 1, first - 1))
       IN First(<<befo.why,
                  All(n, LAMBDA k : At("operation ", k,
                     LET o == r.ops[k]
                     IN IF o.res = "panic" THEN o.op \o " panicked: " \o o.e
                        ELSE IF o.hit THEN If(o.must /\ o.res # "err", o.op \o " reports success although the output failed during it")
                        ELSE IF k > first /\ o.op \in {"file", "solid"} THEN If(o.res = "ok" /\ MustFail(W0, o), o.op \o " reports success although it cannot have succeeded")
                        ELSE "")),
                  IF s.fin THEN First(<<If(Len(r.reads) = 0, "no read"),
                                        All(Len(r.reads), LAMBDA k : At("read ", k, FullRead(s, r.reads[k], {"core", "meta"})))>>)
                  ELSE All(Len(r.reads), LAMBDA k : At("read of the unfinished archive ", k, UnfinishedOK(s, r.reads[k])))>>)

\* every image on the way, torn or not; r.probes[k].complete: after the last operation
CrashOK(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET s == Run(r.ops)
       IN IF s.why # "" THEN s.why
          ELSE First(<<If(~(\E k \in 1..Len(r.probes) : r.probes[k].complete) /\ s.w.fin, "the complete image is missing"),
                       All(Len(r.probes), LAMBDA k :
                         LET p == r.probes[k]
                         IN At("image " \o p.at \o " ", k,
                               IF p.complete THEN FullRead(s.w, p.read, {"core", "meta"}) ELSE UnfinishedOK(s.w, p.read)))>>)

\* o.hit: the source failed during this read; o.real: in a way that has to show
SourceFaultOK(ents, o) ==
  LET vs == o.read.visits
      bad == \E k \in 1..Len(vs) : vs[k].st = "err"
  IN IF IsErr(o.read.open) THEN ""
     ELSE IF o.read.open # "ok" THEN "open: " \o o.read.open
     ELSE First(<<If(Len(o.read.list) # Len(ents), "listing"),
                  If(~IsErr(o.read.end) /\ o.read.end # "ok", "iteration: " \o o.read.end),
                  All(Len(vs), LAMBDA k : At("visit ", k,
                     IF vs[k].i < 0 THEN "no entry of the archive"
                     ELSE IF vs[k].st = "ok" THEN VisitOK(ents, vs[k])
                     ELSE If(vs[k].st \notin {"err", "part", "skip"}, vs[k].st))),
                  \* a failure behind the last byte of the last entry read may stay unnoticed, one while opening may not
                  If(o.hit /\ o.real /\ o.opening, "the source failed while opening, and nothing shows it"),
                  If(o.hit /\ o.real /\ o.read.end = "ok" /\ ~bad /\ \E k \in 1..Len(vs) : vs[k].st # "ok", "the source failed, and nothing shows it"),
                  If(~o.hit /\ (o.read.end # "ok" \/ bad), "an error without a failure"),
                  If(o.read.end = "ok" /\ {vs[k].i : k \in 1..Len(vs)} # 0..(Len(ents) - 1), "entries left out without an error")>>)

----------------------------------------------------------------------------
\* a finished archive whose start header was zeroed, rd: a read of it
\* lone: nothing but the header of the archive could be taken for one
BlankOK(w, rd, lone) ==
  IF IsErr(rd.open) THEN If(lone /\ Len(w.ent) > 0, "not recovered: " \o rd.open)
  ELSE FullRead(w, rd, {"core", "meta"})
=============================================================================
