------------------------------- MODULE Reading --------------------------------
(* The entries a header describes, in the form of a session's.              *)
EXTENDS SevenZ, SessionJudge

\* srcs: facts about the contents, by entry
HeaderEnts(h, srcs) == [i \in 1..Len(h.files) |->
    LET f == h.files[i]
    IN [nu |-> f.nu, dir |-> f.dir, anti |-> f.anti, ct |-> f.ct, at |-> f.at, mt |-> f.mt, attr |-> f.attr,
        str |-> f.hs, n |-> f.size, crc |-> srcs[i].crc, h |-> srcs[i].h, blk |-> FolderOf(h, i)]]
=============================================================================
