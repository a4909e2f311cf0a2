------------------------------ MODULE J_Foreign ------------------------------
(* What a reader has to make of a header the specification accepts: C04.    *)
EXTENDS Reading, JudgeBase

FileListed(f, l) ==
  First(<<If(l.nu # f.nu, "name"), If(l.dir # f.dir, "is_directory"), If(l.anti # f.anti, "is_anti_item"),
          If(l.hs # f.hs, "has_stream"), If(l.size # f.size, "size"),
          If(l.crc[1] # (f.crc # <<>>), "has_crc"), If(f.crc # <<>> /\ l.crc[2] # f.crc, "checksum"),
          If(~SameOpt(l.ct, f.ct), "creation time"), If(~SameOpt(l.at, f.at), "access time"),
          If(~SameOpt(l.mt, f.mt), "modification time"), If(~SameOpt(l.attr, f.attr), "attributes")>>)
ReadOK(h, ents, rd) ==
  IF rd.open # "ok" THEN "open: " \o rd.open
  ELSE First(<<If(Len(rd.list) # Len(ents), "number of entries"),
               All(MinI(Len(rd.list), Len(ents)), LAMBDA i : At("entry ", i, FileListed(h.files[i], rd.list[i]))),
               If(rd.end # "ok", "iteration: " \o rd.end),
               FullVisits(ents, rd.visits),
               If(~InOrder(rd.visits, LAMBDA i : ents[i].blk), "order of the visits"),
               IF rd.hasblocks THEN BlocksOK(ents, Len(h.streams.folders), rd.blocks) ELSE "">>)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET h == Header(r.bytes)
       IN IF h.s # "ok" \/ Len(r.srcs) # Len(h.v.files) THEN Assert(FALSE, "bad record")
          ELSE LET e == HeaderEnts(h.v, r.srcs) IN All(Len(r.reads), LAMBDA k : ReadOK(h.v, e, r.reads[k]))
=============================================================================
