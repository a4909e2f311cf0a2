------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* A finished file against the format and against the session that wrote   *)
(* it.  r.bytes is the file; r.plain the decoded header when it is encoded *)
(* and r.efacts, r.facts what an independent decoder made of the folders:  *)
(* [outs: size of every coder's output, n, crc, subs: (n, crc) of the      *)
(* pieces the header cuts the output into]; r.pyerr why it could not.      *)
(***************************************************************************)
EXTENDS SevenZ, SessionJudge

\* the pack streams of st lie behind the signature header, end at `end` and have their checksums
PackOK(b, st, end) ==
  LET n == Len(st.pack.sizes)
      e == PackEnd(Add64(st.pack.pos, <<32, 0, 0, 0>>), st.pack.sizes).v
  IN IF Int64(e) > Len(b) THEN "packed streams reach behind the end of the file"
     ELSE First(<<If(n > 0 /\ Int64(e) # end, "packed streams end at " \o ToString(Int64(e)) \o ", what follows begins at " \o ToString(end)),
                  All(n, LAMBDA k :
                    LET at == 32 + Int64(PackEnd(st.pack.pos, SubSeq(st.pack.sizes, 1, k - 1)).v)
                    IN If(st.pack.crcs[k] # <<>> /\ Crc32(SubSeq(b, at + 1, at + Int64(st.pack.sizes[k]))) # st.pack.crcs[k],
                          "checksum of packed stream " \o ToString(k)))>>)

LzmaProps(p) == Len(p) = 5 /\ p[1] < 225
AesProps(p) ==
  /\ Len(p) >= 1
  /\ LET c == p[1] % 64
     IN /\ c <= 24 \/ c = 63
        /\ IF p[1] < 64 THEN Len(p) = 1
           ELSE Len(p) >= 2 /\ Len(p) = 2 + (p[1] \div 128) + ((p[1] \div 64) % 2) + (p[2] \div 16) + (p[2] % 16)
CoderOK(c) ==
  CASE c.id = idLZMA -> If(~LzmaProps(c.props), "LZMA properties")
    [] c.id = idLZMA2 -> If(Len(c.props) # 1 \/ c.props[1] > 40, "LZMA2 properties")
    [] c.id = idAES -> If(~AesProps(c.props), "AES properties")
    [] c.id = idCopy -> If(c.props # <<>>, "properties of COPY")
    [] OTHER -> ""

\* the independent decoder's account of the folders of st
FoldersOK(st, facts) ==
  IF Len(facts) # Len(st.folders) THEN "folders decoded: " \o ToString(Len(facts))
  ELSE All(Len(st.folders), LAMBDA f :
         At("folder ", f,
           LET x == facts[f] y == st.folders[f]
           IN First(<<All(Len(y.coders), LAMBDA k : CoderOK(y.coders[k])),
                      If(x.outs # y.sizes, "sizes of the coders' outputs"),
                      If(x.n # y.size, "size"),
                      If(y.crc # <<>> /\ y.crc # x.crc, "checksum")>>)))
SubsOK(st, facts) ==
  LET got == Cat([f \in 1..Len(facts) |-> facts[f].subs])
  IN IF Len(got) # Len(st.subs) THEN "number of streams in folders"
     ELSE All(Len(got), LAMBDA k :
            At("stream ", k, First(<<If(got[k].n # st.subs[k].size, "size"),
                                     If(st.subs[k].crc # <<>> /\ st.subs[k].crc # got[k].crc, "checksum")>>)))

\* header entries against the session's
FilesOK(ents, h, facts) ==
  LET got == Cat([f \in 1..Len(facts) |-> facts[f].subs])
  IN IF Len(h.files) # Len(ents) THEN "header lists " \o ToString(Len(h.files)) \o " entries instead of " \o ToString(Len(ents))
     ELSE All(Len(ents), LAMBDA i :
       LET e == ents[i] f == h.files[i]
       IN At("entry ", i,
            First(<<If(f.nu # e.nu, "name"), If(f.dir # e.dir, "directory"),
                    If(f.hs /\ ~e.str, "stream of an entry without data"),
                    If(~f.hs /\ e.str /\ ~IsZero(e.n), "no stream for an entry with data"),
                    If(f.hs /\ (got[f.sub].n # e.n \/ got[f.sub].crc # e.crc), "content"),
                    If(~f.hs /\ f.anti # e.anti, "anti mark"),
                    If(f.ct # e.ct, "creation time"), If(f.at # e.at, "access time"),
                    If(f.mt # e.mt, "modification time"), If(f.attr # e.attr, "attributes")>>)))

FileOK(w, r) ==
  LET b == r.bytes
      sh == StartHeader(b)
  IN IF ~IsOk(sh) THEN "start header"
     ELSE
     LET at == Int64(Add64(sh.v.off, <<32, 0, 0, 0>>))
         n == Int64(sh.v.size)
         raw == SubSeq(b, at + 1, at + n)
     IN IF at + n # Len(b) THEN "header at " \o ToString(at) \o " of " \o ToString(n) \o " bytes in a file of " \o ToString(Len(b))
        ELSE IF Crc32(raw) # sh.v.crc THEN "header checksum"
        ELSE IF sh.v.minor > 4 THEN "version"
        ELSE IF n = 0 THEN If(w.ent # <<>>, "no header")
        ELSE
        LET isenc == raw[1] = kEncoded
            enc == Encoded(raw)
        IN IF isenc /\ ~IsOk(enc) THEN "encoded header: " \o enc.s
           ELSE IF r.pyerr # "" THEN "an independent reader fails: " \o r.pyerr
           ELSE
           LET h == Header(IF isenc THEN r.plain ELSE raw)
           IN IF h.s # "ok" THEN "header: " \o h.s
              ELSE First(<<IF isenc THEN First(<<PackOK(b, enc.v, at), FoldersOK(enc.v, r.efacts),
                                                 PackOK(b, h.v.streams, 32 + Int64(enc.v.pack.pos))>>)
                           ELSE PackOK(b, h.v.streams, at),
                           If(h.v.streams.spare # 0, "packed streams that belong to no folder"),
                           FoldersOK(h.v.streams, r.facts), SubsOK(h.v.streams, r.facts),
                           FilesOK(w.ent, h.v, r.facts)>>)

ContainerOK(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET s == Run(r.ops)
       IN IF s.why # "" THEN s.why
          ELSE First(<<All(Len(r.ops), LAMBDA k : At("operation ", k, Returned(s.w, r.ops[k]))),
                       IF s.w.fin THEN FileOK(s.w, r) ELSE "">>)
=============================================================================
