-------------------------------- MODULE Damage --------------------------------
(***************************************************************************)
(* What may be seen of an archive some of whose bytes were changed, cut off  *)
(* or added.  Nothing is said about where the damage is noticed; but what is *)
(* delivered as a complete entry is what was stored, and has the recorded    *)
(* length and checksum.                                                     *)
(***************************************************************************)
EXTENDS Reading

IsOkEnd(x) == x.st = "ok"
\* protected: every byte of the file counts in some checksum (as in what the writer makes)
DeliveredOK(x, i, protected, crcOf) ==
  IF x.st \notin {"ok", "err", "skip", "part"} THEN x.st
  ELSE IF x.st # "ok" THEN ""
  ELSE If((protected \/ crcOf # <<>>) /\ x.rel # "eq", "complete with other bytes than were stored")
\* an undamaged listing, entries complete or in error
SameListing(o, base, crcs) ==
  IF o.open # "ok" THEN If(o.open \notin {"err", "err:password_required"}, "open: " \o o.open)
  ELSE IF o.end \notin {"ok", "err"} THEN "iteration: " \o o.end
  ELSE First(<<If(o.dig # base, "listed something else"),
               All(Len(o.visits), LAMBDA k :
                 LET x == o.visits[k]
                 IN IF x.i + 1 \notin 1..Len(crcs) THEN "visit of something that is no entry"
                    ELSE At("entry ", x.i + 1, DeliveredOK(x, x.i + 1, TRUE, crcs[x.i + 1]))),
               If(o.end = "ok" /\ {o.visits[k].i : k \in 1..Len(o.visits)} # 0..(Len(crcs) - 1), "entries left out without an error")>>)
\* damage that the checksums of the header do not show: what is listed is what is delivered
Consistent(o) ==
  IF o.open # "ok" THEN If(o.open \notin {"err", "err:password_required"}, "open: " \o o.open)
  ELSE IF o.end \notin {"ok", "err"} THEN "iteration: " \o o.end
  ELSE All(Len(o.visits), LAMBDA k :
         LET x == o.visits[k]
         IN IF x.i + 1 \notin 1..Len(o.list) THEN "visit of something that is no entry"
            ELSE LET l == o.list[x.i + 1]
                 IN At("entry ", x.i + 1,
                      IF x.st \notin {"ok", "err"} THEN x.st
                      ELSE IF x.st = "err" THEN ""
                      ELSE First(<<If(x.n # l.size, "complete with another length than recorded"),
                                   If(l.hs /\ ~IsZero(l.size) /\ l.crc[1] /\ x.crc # l.crc[2], "complete with another checksum than recorded")>>)))
=============================================================================
