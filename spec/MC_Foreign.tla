----------------------------- MODULE MC_Foreign ------------------------------
(***************************************************************************)
(* A writer that composes an archive from a table of folder bodies          *)
(* (coders, sizes, checksums of real packed data), decides about every      *)
(* optional record, and writes the header.  Reading it back must give the   *)
(* archive (Inverts); the bytes are printed for replay on the code.         *)
(***************************************************************************)
EXTENDS Foreign, TLC, Json, IOUtils

CONSTANTS MaxFolders, MaxEmpty, Bodies, Opts, Emit

BT == ndJsonDeserialize(IOEnv.BODIES)

VARIABLES fo, fl, ch, st
vars == <<fo, fl, ch, st>>
(* st: "folders" -> "files" -> option names ... -> "done"                   *)

Pats == {"none", "all", "odd", "last"}
In(p, i, n) == CASE p = "none" -> FALSE [] p = "all" -> TRUE [] p = "odd" -> i % 2 = 1 [] p = "last" -> i = n
\* options: name -> values
OptVals == [wide |-> {0, 1, 3, 6, 8}, bits |-> BOOLEAN, nums |-> BOOLEAN, subs |-> BOOLEAN, zeros |-> BOOLEAN,
            order |-> 1..4, dummy |-> BOOLEAN, aprops |-> BOOLEAN,
            pcrc |-> Pats, fcrc |-> Pats, scrc |-> Pats, ct |-> Pats, at |-> Pats, mt |-> Pats, attr |-> Pats,
            uni |-> BOOLEAN, pos |-> {0, 1, 200}]
OptSeq == <<"wide", "bits", "nums", "subs", "zeros", "order", "dummy", "aprops", "pcrc", "fcrc", "scrc",
            "ct", "at", "mt", "attr", "uni", "pos">>
Default == [wide |-> 0, bits |-> FALSE, nums |-> FALSE, subs |-> FALSE, zeros |-> FALSE, order |-> 1,
            dummy |-> FALSE, aprops |-> FALSE, pcrc |-> "none", fcrc |-> "none", scrc |-> "all",
            ct |-> "none", at |-> "none", mt |-> "all", attr |-> "all", uni |-> FALSE, pos |-> 0]

Streams0 == SumSeq([i \in 1..Len(fo) |-> Len(BT[fo[i]].subs)])
Used == Count(fl, LAMBDA k : k = "data")

Init == fo = <<>> /\ fl = <<>> /\ ch = Default /\ st = "folders"
AddFolder == /\ st = "folders" /\ Len(fo) < MaxFolders
             /\ \E b \in Bodies : b <= Len(BT) /\ fo' = Append(fo, b)
             /\ UNCHANGED <<fl, ch, st>>
ToFiles == st = "folders" /\ st' = "files" /\ UNCHANGED <<fo, fl, ch>>
AddFile == /\ st = "files"
           /\ \/ Used < Streams0 /\ fl' = Append(fl, "data")
              \/ /\ Len(fl) - Used < MaxEmpty
                 /\ \E k \in {"dir", "file", "antifile", "antidir"} : fl' = Append(fl, k)
           /\ UNCHANGED <<fo, ch, st>>
ToOpts == st = "files" /\ Used = Streams0 /\ st' = (IF Opts = <<>> THEN "write" ELSE Opts[1]) /\ UNCHANGED <<fo, fl, ch>>
Choose == \E k \in 1..Len(Opts) :
             /\ st = Opts[k]
             /\ \E x \in OptVals[Opts[k]] : ch' = [ch EXCEPT ![Opts[k]] = x]
             /\ st' = (IF k = Len(Opts) THEN "write" ELSE Opts[k + 1])
             /\ UNCHANGED <<fo, fl>>

\* the abstract archive
Tm(i, k) == <<(i * 4099 + k) % 65536, (i * 257) % 65536, 40000 + k, 470>>
Archive ==
  LET nf == Len(fo)
      packs == Cat([i \in 1..nf |-> BT[fo[i]].packs])
      pcrcs == Cat([i \in 1..nf |-> BT[fo[i]].pcrcs])
      np == Len(packs)
      one(i) == Len(BT[fo[i]].subs) = 1
      folders == [i \in 1..nf |-> LET b == BT[fo[i]]
                   IN [coders |-> b.coders, binds |-> b.binds, packed |-> b.packed, main |-> b.main, sizes |-> b.sizes,
                       size |-> b.sizes[b.main + 1], crc |-> IF In(ch.fcrc, i, nf) THEN b.crc ELSE <<>>]]
      flat == Cat([i \in 1..nf |-> [k \in 1..Len(BT[fo[i]].subs) |-> <<i, k>>]])
      subs == [s \in 1..Len(flat) |->
                LET i == flat[s][1] b == BT[fo[i]] k == flat[s][2]
                IN [folder |-> i, size |-> b.subs[k],
                    crc |-> IF one(i) /\ folders[i].crc # <<>> THEN folders[i].crc
                            ELSE IF In(ch.scrc, s, Len(flat)) THEN b.scrcs[k] ELSE <<>>]]
      n == Len(fl)
      sub(i) == Count(SubSeq(fl, 1, i), LAMBDA k : k = "data")
      nu(i) == IF ch.uni THEN <<55296 + (i % 7), 56320 + i, 233, 97 + (i % 26)>> ELSE <<102, 48 + i>>
      file(i) == LET k == fl[i] d == k = "data"
                 IN [nu |-> nu(i), hs |-> d, dir |-> k \in {"dir", "antidir"}, anti |-> k \in {"antifile", "antidir"},
                     ct |-> IF In(ch.ct, i, n) THEN Tm(i, 1) ELSE <<>>,
                     at |-> IF In(ch.at, i, n) THEN Tm(i, 2) ELSE <<>>,
                     mt |-> IF In(ch.mt, i, n) THEN Tm(i, 3) ELSE <<>>,
                     attr |-> IF In(ch.attr, i, n) THEN <<i, 32768 + i>> ELSE <<>>,
                     crc |-> IF d THEN subs[sub(i)].crc ELSE <<>>,
                     size |-> IF d THEN subs[sub(i)].size ELSE Zero64,
                     sub |-> IF d THEN sub(i) ELSE 0]
  IN [streams |-> [pack |-> [pos |-> IF nf = 0 THEN Zero64 ELSE L64(ch.pos), sizes |-> packs,
                             crcs |-> [k \in 1..np |-> IF In(ch.pcrc, k, np) THEN pcrcs[k] ELSE <<>>]],
                   folders |-> folders, subs |-> subs, spare |-> 0],
      files |-> [i \in 1..n |-> file(i)]]

Write == /\ st = "write" /\ st' = "done"
         /\ (Emit => PrintT("SC " \o ToJson([fo |-> fo, fl |-> fl, pos |-> IF fo = <<>> THEN 0 ELSE ch.pos, ch |-> ch,
                                             bytes |-> PutArchive(Archive, ch)])))
         /\ UNCHANGED <<fo, fl, ch>>
Next == AddFolder \/ ToFiles \/ AddFile \/ ToOpts \/ Choose \/ Write
Spec == Init /\ [][Next]_vars

Inverts == st = "done" => LET h == Header(PutArchive(Archive, ch)) IN h.s = "ok" /\ h.v = Archive
\* nothing a reader could accept is left when any last part of the header is missing
NoPrefix == st = "done" => LET b == PutArchive(Archive, ch)
                           IN \A n \in {Len(b) - 1, Len(b) - 2, Len(b) \div 2, 3} : n < Len(b) => Header(SubSeq(b, 1, n)).s # "ok"
\* simulation: folders and files come to an end
=============================================================================
