----------------------------- MODULE SessionJudge -----------------------------
(***************************************************************************)
(* What a recorded session and the reads that follow it may look like.      *)
(* Each operator gives "" or the reason why the record is not allowed.      *)
(***************************************************************************)
EXTENDS Session, TLC, Verdict


Kept(has, val) == [has |-> has, val |-> val]
\* [has, limbs] as recorded against <<>> or limbs
SameOpt(rec, spec) == IF spec = <<>> THEN ~rec[1] ELSE rec[1] /\ rec[2] = spec

\* one listed entry against the entry added; asp: which aspects are looked at
\*   "core" name, kind, size; "meta" times, attributes, anti mark; "sums" checksums and stream marks
EntryOK(e, l, asp) ==
  First(<<IF "core" \in asp THEN First(<<If(l.nu # e.nu, "name"), If(l.dir # e.dir, "is_directory"),
                                         If(l.size # e.n, "size")>>) ELSE "",
          IF "meta" \in asp THEN First(<<
            If(~e.str /\ l.anti # e.anti, "is_anti_item"),
            If(e.str /\ ~e.anti /\ l.anti, "is_anti_item"),
            If(~SameOpt(l.ct, e.ct), "creation time"), If(~SameOpt(l.at, e.at), "access time"),
            If(~SameOpt(l.mt, e.mt), "modification time"), If(~SameOpt(l.attr, e.attr), "attributes")>>) ELSE "",
          IF "sums" \in asp THEN First(<<
            If(e.str /\ ~IsZero(e.n) /\ ~l.hs, "has_stream"),
            If(~e.str /\ l.hs, "has_stream"),
            If(~IsZero(e.n) /\ ~l.crc[1], "checksum missing"),
            If(e.str /\ l.crc[1] /\ l.crc[2] # e.crc, "checksum"),
            If(~e.str /\ l.crc[1], "checksum of an entry without a stream")>>) ELSE "">>)
ListOK(ents, list, asp) ==
  IF Len(list) # Len(ents) THEN "listing has " \o ToString(Len(list)) \o " entries instead of " \o ToString(Len(ents))
  ELSE All(Len(ents), LAMBDA i : At("entry ", i, EntryOK(ents[i], list[i], asp)))

\* a complete visit delivers exactly the bytes
VisitOK(ents, x) ==
  IF x.i < 0 THEN "visited something that is not an entry of the archive"
  ELSE LET e == ents[x.i + 1]
       IN First(<<If(x.st # "ok", "reading ended with " \o x.st),
                  If(x.n # e.n, "number of bytes"),
                  If(x.rel # "eq" \/ (~IsZero(e.n) /\ (x.h # e.h \/ x.crc # e.crc)), "content")>>)
FullVisits(ents, visits) ==
  First(<<All(Len(visits), LAMBDA k : At("visit ", k, VisitOK(ents, visits[k]))),
          If(Len(visits) # Len(ents), "visited " \o ToString(Len(visits)) \o " of " \o ToString(Len(ents)) \o " entries"),
          If({visits[k].i : k \in 1..Len(visits)} # 0..(Len(ents) - 1), "not every entry was visited")>>)

\* order: inside of a block, entries come in the order of the listing
InOrder(visits, blkOf(_)) ==
  \/ \A j \in 1..(Len(visits) - 1) : visits[j].i >= 0 /\ visits[j].i < visits[j + 1].i     \* the common case, and quickly seen
  \/ \A j, k \in 1..Len(visits) :
     (j < k /\ visits[j].i >= 0 /\ visits[k].i >= 0 /\ blkOf(visits[j].i + 1) = blkOf(visits[k].i + 1)) => visits[j].i < visits[k].i

\* blocks as reported by block decoders: entries[] and entry_count() agree, each entry with a
\* stream is in the block that holds it
BlocksOK(ents, nblk, blocks) ==
  First(<<If(Len(blocks) # nblk, "number of blocks"),
          All(Len(blocks), LAMBDA b :
             At("block ", b,
               IF blocks[b].panic # "" THEN "panic: " \o blocks[b].panic
               ELSE IF \E q \in 1..Len(blocks[b].es) : blocks[b].es[q] \notin 0..(Len(ents) - 1) THEN "entries from outside of the archive"
               ELSE First(<<If(blocks[b].n # Len(blocks[b].es), "entry_count differs from entries"),
                            If({i \in 1..Len(ents) : ents[i].str /\ ents[i].blk = b}
                                 # {j + 1 : j \in {y \in {blocks[b].es[q] : q \in 1..Len(blocks[b].es)} : ents[y + 1].str}},
                               "entries of the block")>>)))>>)

\* a complete read of a finished archive
FullRead(w, rd, asp) ==
  IF rd.open # "ok" THEN "open: " \o rd.open
  ELSE First(<<ListOK(w.ent, rd.list, asp),
               IF "core" \in asp THEN
                 First(<<If(rd.end # "ok", "iteration: " \o rd.end),
                         FullVisits(w.ent, rd.visits),
                         If(~InOrder(rd.visits, LAMBDA i : BlockOf(w.ent, i)), "order of the visits")>>)
               ELSE "",
               IF "blk" \in asp /\ rd.hasblocks THEN BlocksOK(w.ent, Len(w.blk), rd.blocks) ELSE "">>)

----------------------------------------------------------------------------
(* The session itself: outcome of each operation, and the state it leads to *)

OpOutcome(w, o) ==
  IF o.res = "panic" THEN o.op \o " panicked: " \o o.e
  ELSE IF o.faulted THEN ""                        \* judged by property 21
  ELSE IF o.op \in {"file", "solid"} THEN
         IF MustFail(w, o) THEN If(o.res # "err", o.op \o " reported success although it cannot have succeeded")
         ELSE If(o.res # "ok", o.op \o " failed: " \o o.e)
  ELSE If(o.res # "ok", o.op \o " failed: " \o o.e)

Run(ops) ==
  FoldLeft(LAMBDA s, k :
      LET m == OpOutcome(s.w, ops[k])
      IN [w |-> Step(s.w, ops[k], ops[k].res = "ok"), why |-> IF s.why # "" THEN s.why ELSE At("operation ", k, m)],
    [w |-> W0, why |-> ""], [k \in 1..Len(ops) |-> k])

\* the entry that push_archive_entry returns describes what was added
Returned(w, o) ==
  IF o.op # "file" \/ o.res # "ok" THEN ""
  ELSE LET e == Entry(o, o.as[1], 0) l == o.entry
       IN First(<<If(l.nu # e.nu, "returned entry: name"), If(l.size # e.n, "returned entry: size"),
                  If(l.hs # e.str, "returned entry: has_stream"),
                  If(e.str /\ (~l.crc[1] \/ l.crc[2] # e.crc), "returned entry: checksum"),
                  If(e.str /\ l.csize # o.packed.n, "returned entry: compressed size"),
                  If(e.str /\ l.ccrc # o.packed.crc, "returned entry: compressed checksum")>>)

\* a session whose operations went as they must, and whose archive reads back
SessionOK(r, asp) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET s == Run(r.ops)
       IN IF s.why # "" THEN s.why
          ELSE First(<<IF "sums" \in asp THEN All(Len(r.ops), LAMBDA k : At("operation ", k, Returned(s.w, r.ops[k]))) ELSE "",
                       IF s.w.fin THEN First(<<If(Len(r.reads) = 0, "no read"),
                                               All(Len(r.reads), LAMBDA k : At("read ", k, FullRead(s.w, r.reads[k], asp)))>>)
                       ELSE "">>)
=============================================================================
