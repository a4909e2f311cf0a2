------------------------------- MODULE J_Store --------------------------------
(* Verdicts on output that ended early or failed, and on failing sources.   *)
EXTENDS Store, Reading, JudgeBase

\* positions where something stands that may be taken for a header reaching to the end of the file
\* (what the format leaves free included)
Tail1(b, i) == SubSeq(b, i, Len(b))
Lookalikes(b) == {i \in 33..Len(b) : \/ (b[i] = kHeader /\ Header(Tail1(b, i)).s # "bad")
                                    \/ (b[i] = kEncoded /\ Encoded(Tail1(b, i)).s # "bad")}
HeaderAt(b) == 33 + Int64(LE64(b, 13))
Lone(b) == Lookalikes(b) = {HeaderAt(b)}

V(r) == CASE r.rule = "crash" -> CrashOK(r)
          [] r.rule = "fault" -> FaultOK(r)
          [] r.rule = "source" ->
               IF r.died # "" THEN "the run died: " \o r.died
               ELSE LET s == Run(r.ops)
                    IN IF s.why # "" THEN s.why
                       ELSE First(<<If(Len(r.outs) = 0, "nothing was read"), All(Len(r.outs), LAMBDA k : At("at " \o r.outs[k].at \o " ", k, SourceFaultOK(s.w.ent, r.outs[k])))>>)
          [] r.rule = "sourcef" ->
               IF r.died # "" THEN "the run died: " \o r.died
               ELSE LET h == Header(r.bytes)
                    IN IF h.s # "ok" THEN Assert(FALSE, "bad record")
                       ELSE LET e == HeaderEnts(h.v, r.srcs)
                            IN All(Len(r.outs), LAMBDA k : At("at " \o r.outs[k].at \o " ", k, SourceFaultOK(e, r.outs[k])))
          [] r.rule = "blank" ->
               IF r.died # "" THEN "the run died: " \o r.died
               ELSE LET s == Run(r.ops)
                        lone == r.big \/ Lone(r.bytes)      \* long ones are full of random bytes
                    IN IF s.why # "" THEN s.why
                       ELSE First(<<If(~s.w.fin \/ Len(r.reads) = 0, "nothing was read"),
                                    All(Len(r.reads), LAMBDA k : At("read ", k, 
                                       IF r.full[k] THEN BlankOK(s.w, r.reads[k], lone)
                                       ELSE IF IsErr(r.reads[k].open) THEN ""
                                       ELSE IF r.reads[k].open # "ok" THEN r.reads[k].open
                                       ELSE ListOK(s.w.ent, r.reads[k].list, {"core", "meta"})))>>)
=============================================================================
