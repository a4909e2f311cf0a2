------------------------------- MODULE Foreign -------------------------------
(***************************************************************************)
(* Headers of other writers.  PutArchive(a, ch) writes the abstract archive  *)
(* a (what Header gives) with the freedom the format leaves, ch:            *)
(*   wide    numbers this many bytes longer than needed                         *)
(*   bits    bit vectors written out even where all bits are set            *)
(*   nums    numbers of streams written even where they are all 1           *)
(*   subs    the sub-stream record even where it says nothing               *)
(*   zeros   vectors without any bit set are written                        *)
(*   order   order of the file properties                                   *)
(*   dummy   padding properties                                             *)
(*   aprops  archive properties                                             *)
(***************************************************************************)
EXTENDS SevenZ

PutNum(l, ch) == LET m == CHOOSE n \in 0..8 : FitsIn(l, n) /\ (n = 0 \/ ~FitsIn(l, n - 1))
                 IN NumBytes(l, IF m + ch.wide > 8 THEN 8 ELSE m + ch.wide)
PutInt(k, ch) == PutNum(L64(k), ch)
PutSeq(ls, ch) == Cat([i \in 1..Len(ls) |-> PutNum(ls[i], ch)])
SomeDef(vals) == \E i \in 1..Len(vals) : vals[i] # <<>>
PutDigests(vals, ch) == PutDefined(vals, ch.bits) \o PutVals(vals)
CrcRecord(vals, ch) == IF SomeDef(vals) \/ (ch.zeros /\ Len(vals) > 0) THEN <<kCRC>> \o PutDigests(vals, ch) ELSE <<>>

PutPack(pk, ch) ==
  <<kPackInfo>> \o PutNum(pk.pos, ch) \o PutInt(Len(pk.sizes), ch)
  \o (IF Len(pk.sizes) > 0 \/ ch.zeros THEN <<kSize>> \o PutSeq(pk.sizes, ch) ELSE <<>>)
  \o CrcRecord(pk.crcs, ch) \o <<kEnd>>

PutCoder(c, ch) ==
  LET simple == c.nin = 1 /\ c.nout = 1
  IN <<Len(c.id) + (IF simple THEN 0 ELSE 16) + (IF c.props # <<>> THEN 32 ELSE 0)>> \o c.id
     \o (IF simple THEN <<>> ELSE PutInt(c.nin, ch) \o PutInt(c.nout, ch))
     \o (IF c.props # <<>> THEN PutInt(Len(c.props), ch) \o c.props ELSE <<>>)
PutFolder(f, ch) ==
  PutInt(Len(f.coders), ch) \o Cat([i \in 1..Len(f.coders) |-> PutCoder(f.coders[i], ch)])
  \o Cat([i \in 1..Len(f.binds) |-> PutInt(f.binds[i][1], ch) \o PutInt(f.binds[i][2], ch)])
  \o (IF Len(f.packed) > 1 THEN Cat([i \in 1..Len(f.packed) |-> PutInt(f.packed[i], ch)]) ELSE <<>>)
PutUnpack(fs, ch) ==
  <<kUnpackInfo, kFolder>> \o PutInt(Len(fs), ch) \o <<0>>
  \o Cat([i \in 1..Len(fs) |-> PutFolder(fs[i], ch)])
  \o <<kCodersSize>> \o Cat([i \in 1..Len(fs) |-> PutSeq(fs[i].sizes, ch)])
  \o CrcRecord([i \in 1..Len(fs) |-> fs[i].crc], ch) \o <<kEnd>>

NumsOf(st) == [f \in 1..Len(st.folders) |-> Count(st.subs, LAMBDA s : s.folder = f)]
PutSubs(st, ch) ==
  LET nums == NumsOf(st)
      idx == [i \in 1..Len(st.subs) |-> i]
      lastof(i) == i = Len(st.subs) \/ st.subs[i + 1].folder # st.subs[i].folder
      sizes == SelectSeq(idx, LAMBDA i : ~lastof(i))
      open == SelectSeq(idx, LAMBDA i : ~(nums[st.subs[i].folder] = 1 /\ st.folders[st.subs[i].folder].crc # <<>>))
      ones == \A f \in 1..Len(nums) : nums[f] = 1
      crcs == [k \in 1..Len(open) |-> st.subs[open[k]].crc]
      body == (IF ~ones \/ ch.nums THEN <<kNumUnpack>> \o Cat([f \in 1..Len(nums) |-> PutInt(nums[f], ch)]) ELSE <<>>)
              \o (IF sizes # <<>> THEN <<kSize>> \o Cat([k \in 1..Len(sizes) |-> PutNum(st.subs[sizes[k]].size, ch)]) ELSE <<>>)
              \o CrcRecord(crcs, ch)
  IN IF body = <<>> /\ ~ch.subs THEN <<>> ELSE <<kSubStreams>> \o body \o <<kEnd>>

PutStreams(st, ch) ==
  (IF st.pack.sizes # <<>> \/ st.pack.pos # Zero64 \/ ch.zeros THEN PutPack(st.pack, ch) ELSE <<>>)
  \o (IF st.folders # <<>> \/ ch.zeros THEN PutUnpack(st.folders, ch) ELSE <<>>)
  \o PutSubs(st, ch) \o <<kEnd>>

Prop(t, body, ch) == <<t>> \o PutInt(Len(body), ch) \o body
BoolProp(t, bs, ch) == IF (\E i \in 1..Len(bs) : bs[i]) \/ (ch.zeros /\ Len(bs) > 0) THEN Prop(t, PackBits(bs), ch) ELSE <<>>
ValProp(t, vals, ch) == IF SomeDef(vals) \/ (ch.zeros /\ Len(vals) > 0)
                        THEN Prop(t, PutDefined(vals, ch.bits) \o <<0>> \o PutVals(vals), ch) ELSE <<>>
PutName(nu) == Cat([i \in 1..Len(nu) |-> <<nu[i] % 256, nu[i] \div 256>>]) \o <<0, 0>>

PutFiles(fs, ch) ==
  LET n == Len(fs)
      fld(F(_)) == [i \in 1..n |-> F(fs[i])]
      emp == SelectSeq(fs, LAMBDA f : ~f.hs)
      es == BoolProp(kEmptyStream, fld(LAMBDA f : ~f.hs), ch)
      ef == IF es = <<>> THEN <<>> ELSE BoolProp(kEmptyFile, [i \in 1..Len(emp) |-> ~emp[i].dir], ch)
      an == IF es = <<>> THEN <<>> ELSE BoolProp(kAnti, [i \in 1..Len(emp) |-> emp[i].anti], ch)
      nm == Prop(kNames, <<0>> \o Cat([i \in 1..n |-> PutName(fs[i].nu)]), ch)
      ct == ValProp(kCTime, fld(LAMBDA f : f.ct), ch)
      at == ValProp(kATime, fld(LAMBDA f : f.at), ch)
      mt == ValProp(kMTime, fld(LAMBDA f : f.mt), ch)
      ta == ValProp(kAttr, fld(LAMBDA f : f.attr), ch)
      du(k) == IF ch.dummy THEN Prop(kDummy, Rep(0, k), ch) ELSE <<>>
      all == CASE ch.order = 1 -> <<es, ef, an, du(3), nm, ct, at, mt, ta>>
               [] ch.order = 2 -> <<nm, du(0), ta, mt, at, ct, es, ef, an>>
               [] ch.order = 3 -> <<du(1), mt, es, nm, an, ef, at, du(2), ta, ct>>
               [] ch.order = 4 -> <<ct, at, es, mt, an, nm, ta, ef, du(9)>>
  IN <<kFilesInfo>> \o PutInt(n, ch) \o Cat(all) \o <<kEnd>>

PutArchive(a, ch) ==
  <<kHeader>>
  \o (IF ch.aprops THEN <<kArchiveProps, 60>> \o PutInt(2, ch) \o <<5, 6, kEnd>> ELSE <<>>)
  \o (IF a.streams # NoStreams \/ ch.zeros THEN <<kMainStreams>> \o PutStreams(a.streams, ch) ELSE <<>>)
  \o (IF a.files # <<>> \/ ch.zeros THEN PutFiles(a.files, ch) ELSE <<>>)
  \o <<kEnd>>
=============================================================================
