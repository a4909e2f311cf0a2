------------------------------- MODULE SevenZ -------------------------------
(***************************************************************************)
(* The 7z container: what a header's bytes mean.  Header(b) maps any byte  *)
(* sequence to a listing ("ok"), to "bad" (the format forbids it) or to    *)
(* "uns" (allowed to be refused: rarely used features, or freedom the      *)
(* format leaves).  Serialize is its inverse on abstract archives, for     *)
(* every choice of optional records.                                       *)
(***************************************************************************)
EXTENDS Bytes

kEnd == 0  kHeader == 1  kArchiveProps == 2  kAddStreams == 3  kMainStreams == 4
kFilesInfo == 5  kPackInfo == 6  kUnpackInfo == 7  kSubStreams == 8  kSize == 9
kCRC == 10  kFolder == 11  kCodersSize == 12  kNumUnpack == 13  kEmptyStream == 14
kEmptyFile == 15  kAnti == 16  kNames == 17  kCTime == 18  kATime == 19  kMTime == 20
kAttr == 21  kEncoded == 23  kStartPos == 24  kDummy == 25
Signature == <<55, 122, 188, 175, 39, 28>>
MaxCoders == 32

idCopy == <<0>>        idDelta == <<3>>         idX86 == <<4>>          idLZMA2 == <<33>>
idLZMA == <<3, 1, 1>>  idBCJ2 == <<3, 3, 1, 27>>  idBCJx86 == <<3, 3, 1, 3>>
idPPC == <<3, 3, 2, 5>>  idIA64 == <<3, 3, 4, 1>>  idARM == <<3, 3, 5, 1>>
idARMT == <<3, 3, 7, 1>>  idSPARC == <<3, 3, 8, 5>>  idAES == <<6, 241, 7, 1>>
idBZip2 == <<4, 2, 2>>  idZstd == <<4, 247, 17, 1>>

----------------------------------------------------------------------------
(* Reading.  A reader is called with the bytes and a position and gives a   *)
(* record [s: "ok"|"bad"|"uns", p: next position, v: value].               *)

OK(p, v) == [s |-> "ok", p |-> p, v |-> v]
BAD == [s |-> "bad", p |-> 0, v |-> <<>>]
UNS == [s |-> "uns", p |-> 0, v |-> <<>>]
IsOk(r) == r.s = "ok"
\* r, then the continuation
Then(r, K(_, _)) == IF r.s = "ok" THEN K(r.p, r.v) ELSE r

LeadOnes(f) == CHOOSE n \in 0..8 : /\ n < 8 => f < 256 - P2[7 - n]
                                   /\ n > 0 => f >= 256 - P2[8 - n]
Num(b, p) ==
  IF p > Len(b) THEN BAD
  ELSE LET f == b[p]
       IN IF f < 128 THEN OK(p + 1, <<f, 0, 0, 0>>)
          ELSE LET n == LeadOnes(f)
               IN IF p + n > Len(b) THEN BAD
                  ELSE LET by(i) == IF i < n THEN b[p + 1 + i]
                                    ELSE IF i = n THEN f % P2[7 - n] ELSE 0
                       IN OK(p + n + 1, [k \in 1..4 |-> by(2*k - 2) + 256 * by(2*k - 1)])

\* n repetitions of the reader R(b, p)
Many(b, p, n, R(_, _)) ==
  IF n > Len(b) + 1 THEN BAD          \* every item takes a byte at least
  ELSE FoldLeft(LAMBDA r, i : IF r.s # "ok" THEN r
                              ELSE LET q == R(b, r.p)
                                   IN IF q.s = "ok" THEN OK(q.p, Append(r.v, q.v)) ELSE q,
                OK(p, <<>>), [i \in 1..n |-> i])

BitSeq(b, p, n) == [i \in 1..n |-> (b[p + (i - 1) \div 8] \div P2[7 - ((i - 1) % 8)]) % 2 = 1]
\* unused bits of the last byte should be zero; readers need not care
Padded(b, p, n) == n % 8 = 0 \/ b[p + n \div 8] % P2[8 - (n % 8)] = 0
Bits(b, p, n) ==
  IF n > 8 * (Len(b) - p + 1) THEN BAD
  ELSE OK(p + CeilDiv(n, 8), BitSeq(b, p, n))
AllOrBits(b, p, n) ==
  IF p > Len(b) THEN BAD
  ELSE IF b[p] # 0 THEN OK(p + 1, Rep(TRUE, n))
  ELSE Bits(b, p + 1, n)

\* for each defined item a value of w limbs, <<>> for the others
Defined(b, p, defs, w) ==
  LET k == Count(defs, LAMBDA d : d)
  IN IF p + 2 * w * k - 1 > Len(b) THEN BAD
     ELSE OK(p + 2 * w * k,
             FoldLeft(LAMBDA a, d :
                        IF d THEN [q |-> a.q + 2 * w,
                                   v |-> Append(a.v, [j \in 1..w |-> LE16(b, a.q + 2 * (j - 1))])]
                        ELSE [a EXCEPT !.v = Append(a.v, <<>>)],
                      [q |-> p, v |-> <<>>], defs).v)
\* checksums: <<>> where undefined
Digests(b, p, n) ==
  IF n > 0 /\ n > 8 * (Len(b) + 1) THEN BAD
  ELSE Then(AllOrBits(b, p, n), LAMBDA q, defs : Defined(b, q, defs, 2))

----------------------------------------------------------------------------
(* Streams *)

PackEnd(pos, sizes) == FoldLeft(LAMBDA a, z : LET r == Add64c(a.v, z) IN [c |-> a.c + r.c, v |-> r.v],
                                [c |-> 0, v |-> pos], sizes)

PackInfo(b, p) ==
  Then(Num(b, p), LAMBDA p1, pos :
  Then(Num(b, p1), LAMBDA p2, cnt :
   LET n == Int64(cnt)
       sz == IF p2 <= Len(b) /\ b[p2] = kSize THEN Many(b, p2 + 1, n, Num)
             ELSE IF n = 0 THEN OK(p2, <<>>) ELSE BAD
   IN Then(sz, LAMBDA p3, sizes :
        LET cr == IF p3 <= Len(b) /\ b[p3] = kCRC THEN Digests(b, p3 + 1, n)
                  ELSE OK(p3, Rep(<<>>, n))
            e == PackEnd(Add64(pos, <<32, 0, 0, 0>>), sizes)
        IN Then(cr, LAMBDA p4, crcs :
             IF p4 > Len(b) \/ b[p4] # kEnd THEN BAD
             ELSE IF e.c > 0 \/ ~Fits62(e.v) \/ ~Fits62(pos) THEN UNS
             ELSE OK(p4 + 1, [pos |-> pos, sizes |-> sizes, crcs |-> crcs])))))

Coder(b, p) ==
  IF p > Len(b) THEN BAD
  ELSE
  LET f == b[p]
      idn == f % 16
      p1 == p + 1 + idn
  IN IF p1 - 1 > Len(b) THEN BAD
     ELSE
     LET cx == IF (f \div 16) % 2 = 1
               THEN Then(Num(b, p1), LAMBDA q, a : Then(Num(b, q), LAMBDA q2, c : OK(q2, <<Int64(a), Int64(c)>>)))
               ELSE OK(p1, <<1, 1>>)
     IN Then(cx, LAMBDA p2, io :
          LET pr == IF (f \div 32) % 2 = 1
                    THEN Then(Num(b, p2), LAMBDA q, n :
                           IF Int64(n) > Len(b) - q + 1 THEN BAD ELSE OK(q + Int64(n), Sub(b, q, Int64(n))))
                    ELSE OK(p2, <<>>)
          IN Then(pr, LAMBDA p3, props :
               IF f \div 128 = 1 THEN BAD          \* "not used anymore, must be 0"
               ELSE IF io[1] \notin 1..32 \/ io[2] \notin 1..32 THEN UNS
               ELSE OK(p3, [id |-> Sub(b, p + 1, idn), nin |-> io[1], nout |-> io[2],
                            props |-> props, res |-> (f \div 64) % 2])))

SumTo(cs, F(_), k) == FoldLeft(LAMBDA a, c : a + F(c), 0, SubSeq(cs, 1, k))
\* the coder a stream index belongs to
OwnerOf(cs, F(_), idx) == CHOOSE k \in 1..Len(cs) : SumTo(cs, F, k - 1) <= idx /\ idx < SumTo(cs, F, k)

\* every input is bound or packed, once; every output but one is bound, once; and from every
\* coder the bindings lead to the one whose output is not bound
IsTree(cs, binds, packed, tin, tout) ==
  LET ins  == [i \in 1..Len(binds) |-> binds[i][1]] \o packed
      outs == [i \in 1..Len(binds) |-> binds[i][2]]
      NinF(c) == c.nin
      NoutF(c) == c.nout
      \* outputs reachable (against the bindings) from the unbound output
      feeds(o) == LET k == OwnerOf(cs, NoutF, o)
                      lo == SumTo(cs, NinF, k - 1)
                  IN {binds[i][2] : i \in {j \in 1..Len(binds) : binds[j][1] >= lo /\ binds[j][1] < lo + cs[k].nin}}
      free == (0..tout - 1) \ {outs[i] : i \in 1..Len(outs)}
      reach == FoldLeft(LAMBDA s, i : s \cup UNION {feeds(o) : o \in s}, free, [i \in 1..Len(cs) |-> i])
  IN /\ \A i \in 1..Len(ins) : ins[i] < tin
     /\ \A i, j \in 1..Len(ins) : i # j => ins[i] # ins[j]
     /\ Len(ins) = tin
     /\ \A i \in 1..Len(outs) : outs[i] < tout
     /\ \A i, j \in 1..Len(outs) : i # j => outs[i] # outs[j]
     /\ (\A c \in 1..Len(cs) : cs[c].nout = 1) => reach = 0..(tout - 1)

Pair(b, p) == Then(Num(b, p), LAMBDA q, a : Then(Num(b, q), LAMBDA q2, c : OK(q2, <<Int64(a), Int64(c)>>)))
SmallNum(b, p) == Then(Num(b, p), LAMBDA q, a : OK(q, Int64(a)))

Folder(b, p) ==
  Then(Num(b, p), LAMBDA p1, cnt :
  LET n == Int64(cnt)
  IN IF n = 0 THEN BAD
     ELSE IF n > MaxCoders THEN (IF n > Len(b) THEN BAD ELSE UNS)
     ELSE
     Then(Many(b, p1, n, Coder), LAMBDA p2, cs :
       LET tin == SumTo(cs, LAMBDA c : c.nin, n)
           tout == SumTo(cs, LAMBDA c : c.nout, n)
           nb == tout - 1
           np == tin - nb
       IN Then(Many(b, p2, nb, Pair), LAMBDA p3, binds :
            IF np < 1 THEN BAD
            ELSE
            LET free == (0..tin - 1) \ {binds[i][1] : i \in 1..nb}
                pk == IF np = 1 THEN (IF free = {} THEN BAD
                                      ELSE OK(p3, <<CHOOSE x \in free : \A y \in free : x <= y>>))
                      ELSE Many(b, p3, np, SmallNum)
            IN Then(pk, LAMBDA p4, packed :
                 IF ~IsTree(cs, binds, packed, tin, tout) THEN BAD
                 ELSE IF \E k \in 1..n : cs[k].nout # 1 \/ cs[k].res # 0 THEN UNS
                 ELSE OK(p4, [coders |-> cs, binds |-> binds, packed |-> packed,
                              main |-> CHOOSE o \in 0..tout - 1 : \A i \in 1..nb : binds[i][2] # o])))))

\* the unpack sizes, folder by folder
FolderSizes(b, p, fs) ==
  FoldLeft(LAMBDA r, f : IF r.s # "ok" THEN r
                         ELSE LET q == Many(b, r.p, Len(f.coders), Num)
                              IN IF q.s = "ok" THEN OK(q.p, Append(r.v, q.v)) ELSE q,
           OK(p, <<>>), fs)

UnpackInfo(b, p) ==
  IF p > Len(b) \/ b[p] # kFolder THEN BAD
  ELSE
  Then(Num(b, p + 1), LAMBDA p1, cnt :
   IF p1 > Len(b) THEN BAD
   ELSE IF b[p1] # 0 THEN UNS                       \* external
   ELSE Then(Many(b, p1 + 1, Int64(cnt), Folder), LAMBDA p2, fs :
     IF p2 > Len(b) \/ b[p2] # kCodersSize THEN BAD
     ELSE Then(FolderSizes(b, p2 + 1, fs), LAMBDA p3, szs :
       LET cr == IF p3 <= Len(b) /\ b[p3] = kCRC THEN Digests(b, p3 + 1, Len(fs)) ELSE OK(p3, Rep(<<>>, Len(fs)))
       IN Then(cr, LAMBDA p4, crcs :
            IF p4 > Len(b) \/ b[p4] # kEnd THEN BAD
            ELSE OK(p4 + 1, [i \in 1..Len(fs) |->
                   [coders |-> fs[i].coders, binds |-> fs[i].binds, packed |-> fs[i].packed,
                    main |-> fs[i].main, sizes |-> szs[i], crc |-> crcs[i],
                    size |-> szs[i][fs[i].main + 1]]])))))

\* one stream per folder, when the record says nothing else
OnePer(fs) == Rep(1, Len(fs))

\* sizes of the streams of each folder: all but the last are recorded
SubSizes(b, p, fs, nums, has) ==
  FoldLeft(LAMBDA r, i :
     IF r.s # "ok" \/ nums[i] = 0 THEN r
     ELSE LET q == IF has THEN Many(b, r.p, nums[i] - 1, Num)
                   ELSE IF nums[i] = 1 THEN OK(r.p, <<>>) ELSE BAD
          IN IF q.s # "ok" THEN q
             ELSE LET e == PackEnd(Zero64, q.v)
                  IN IF e.c > 0 \/ ~LeqL(e.v, fs[i].size) THEN BAD
                     ELSE OK(q.p, r.v \o [k \in 1..nums[i] |->
                               [folder |-> i, size |-> IF k < nums[i] THEN q.v[k] ELSE Sub64(fs[i].size, e.v)]]),
     OK(p, <<>>), [i \in 1..Len(fs) |-> i])

SubStreams(b, p, fs) ==
  LET nn == IF p <= Len(b) /\ b[p] = kNumUnpack THEN Many(b, p + 1, Len(fs), SmallNum) ELSE OK(p, OnePer(fs))
  IN Then(nn, LAMBDA p1, nums :
     IF \E i \in 1..Len(fs) : nums[i] > Len(b) + 1 THEN BAD
     ELSE
     LET has == p1 <= Len(b) /\ b[p1] = kSize
     IN Then(SubSizes(b, IF has THEN p1 + 1 ELSE p1, fs, nums, has), LAMBDA p2, subs :
        LET own(i) == nums[subs[i].folder] = 1 /\ fs[subs[i].folder].crc # <<>>
            need == Count([i \in 1..Len(subs) |-> i], LAMBDA i : ~own(i))
            cr == IF p2 <= Len(b) /\ b[p2] = kCRC THEN Digests(b, p2 + 1, need) ELSE OK(p2, Rep(<<>>, need))
        IN Then(cr, LAMBDA p3, crcs :
             IF p3 > Len(b) \/ b[p3] # kEnd THEN BAD
             ELSE OK(p3 + 1,
               [i \in 1..Len(subs) |->
                  [folder |-> subs[i].folder, size |-> subs[i].size,
                   crc |-> IF own(i) THEN fs[subs[i].folder].crc
                           ELSE crcs[Count([j \in 1..i |-> j], LAMBDA j : ~own(j))]]]))))

NoPack == [pos |-> Zero64, sizes |-> <<>>, crcs |-> <<>>]
Streams(b, p) ==
  LET pk == IF p <= Len(b) /\ b[p] = kPackInfo THEN PackInfo(b, p + 1) ELSE OK(p, NoPack)
  IN Then(pk, LAMBDA p1, pack :
     LET un == IF p1 <= Len(b) /\ b[p1] = kUnpackInfo THEN UnpackInfo(b, p1 + 1) ELSE OK(p1, <<>>)
     IN Then(un, LAMBDA p2, fs :
        LET np == SumSeq([i \in 1..Len(fs) |-> Len(fs[i].packed)])
            ss == IF p2 <= Len(b) /\ b[p2] = kSubStreams THEN SubStreams(b, p2 + 1, fs)
                  ELSE OK(p2, [i \in 1..Len(fs) |-> [folder |-> i, size |-> fs[i].size, crc |-> fs[i].crc]])
        IN IF np > Len(pack.sizes) THEN BAD
           ELSE Then(ss, LAMBDA p3, subs :
             IF p3 > Len(b) \/ b[p3] # kEnd THEN BAD
             ELSE OK(p3 + 1, [pack |-> pack, folders |-> fs, subs |-> subs,
                              spare |-> Len(pack.sizes) - np])))
     )

----------------------------------------------------------------------------
(* Files *)

\* splits UTF-16 units at the zeros; <<>> with bad = TRUE when the last one is not terminated
Names(b, p, q) ==          \* units from p to q (inclusive)
  LET r == FoldLeft(LAMBDA a, i :
                      LET u == LE16(b, p + 2 * (i - 1))
                      IN IF u = 0 THEN [names |-> Append(a.names, a.cur), cur |-> <<>>]
                         ELSE [a EXCEPT !.cur = Append(a.cur, u)],
                    [names |-> <<>>, cur |-> <<>>], [i \in 1..((q - p + 1) \div 2) |-> i])
  IN [names |-> r.names, open |-> r.cur # <<>>]
\* paired surrogates only
WellFormed16(u) ==
  \A i \in 1..Len(u) :
     /\ (u[i] >= 55296 /\ u[i] < 56320) => (i < Len(u) /\ u[i + 1] >= 56320 /\ u[i + 1] < 57344)
     /\ (u[i] >= 56320 /\ u[i] < 57344) => (i > 1 /\ u[i - 1] >= 55296 /\ u[i - 1] < 56320)

NoProps == [es |-> <<>>, ef |-> <<>>, an |-> <<>>, nm |-> <<>>, ct |-> <<>>, at |-> <<>>, mt |-> <<>>,
            attr |-> <<>>, seen |-> {}, free |-> FALSE]

NumEmpty(acc) == IF kEmptyStream \in acc.seen THEN Count(acc.es, LAMBDA x : x) ELSE 0

\* defined bits, external byte, values
Valued(b, p, n, w) ==
  Then(AllOrBits(b, p, n), LAMBDA q, defs :
    IF q > Len(b) THEN BAD ELSE IF b[q] # 0 THEN UNS ELSE Defined(b, q + 1, defs, w))

RECURSIVE FileProps(_, _, _, _)
FileProps(b, p, n, acc) ==
  IF p > Len(b) THEN BAD
  ELSE LET t == b[p]
  IN IF t = kEnd THEN OK(p + 1, acc)
     ELSE
     Then(Num(b, p + 1), LAMBDA q, sz :
      LET e == q + Int64(sz)          \* first position behind the property
      IN IF Int64(sz) > Len(b) - q + 1 THEN (IF t = kStartPos THEN UNS ELSE BAD)
         ELSE
         LET own == SubSeq(b, 1, e - 1)             \* a property may not look behind its end
             r == CASE t = kEmptyStream -> Bits(own, q, n)
                    [] t \in {kEmptyFile, kAnti} ->
                         IF kEmptyStream \notin acc.seen THEN BAD ELSE Bits(own, q, NumEmpty(acc))
                    [] t = kNames ->
                         IF Int64(sz) = 0 THEN BAD
                         ELSE IF b[q] # 0 THEN UNS
                         ELSE IF (e - 1 - q) % 2 = 1 THEN BAD
                         ELSE LET ns == Names(own, q + 1, e - 1)
                              IN IF Len(ns.names) # n \/ ns.open THEN (IF ns.open /\ Len(ns.names) = n - 1 THEN UNS ELSE BAD)
                                 ELSE IF \E i \in 1..n : ~WellFormed16(ns.names[i]) THEN UNS
                                 ELSE OK(e, ns.names)
                    [] t \in {kCTime, kATime, kMTime} -> Valued(own, q, n, 4)
                    [] t = kAttr -> Valued(own, q, n, 2)
                    [] t = kStartPos -> UNS
                    [] OTHER -> OK(e, <<>>)
         IN IF r.s # "ok" THEN r
            ELSE IF r.p # e THEN BAD
            ELSE IF t \in acc.seen /\ t \in 14..21 THEN UNS         \* twice the same property
            ELSE FileProps(b, e, n,
              LET a == [acc EXCEPT !.seen = @ \cup {t}]
              IN CASE t = kEmptyStream -> [a EXCEPT !.es = r.v]
                   [] t = kEmptyFile   -> [a EXCEPT !.ef = r.v]
                   [] t = kAnti        -> [a EXCEPT !.an = r.v]
                   [] t = kNames       -> [a EXCEPT !.nm = r.v]
                   [] t = kCTime       -> [a EXCEPT !.ct = r.v]
                   [] t = kATime       -> [a EXCEPT !.at = r.v]
                   [] t = kMTime       -> [a EXCEPT !.mt = r.v]
                   [] t = kAttr        -> [a EXCEPT !.attr = r.v]
                   [] OTHER -> a))

Files(b, p, st) ==
  Then(Num(b, p), LAMBDA p1, cnt :
   LET n == Int64(cnt)
   IN IF n > 8 * Len(b) + Len(st.subs) THEN BAD       \* more entries than bits to describe them
      ELSE Then(FileProps(b, p1, n, NoProps), LAMBDA p2, pr :
        LET es(i) == kEmptyStream \in pr.seen /\ pr.es[i]
            \* ordinals among entries without and with a stream
            ord == FoldLeft(LAMBDA a, i : IF es(i) THEN [e |-> a.e + 1, s |-> a.s, v |-> Append(a.v, a.e + 1)]
                                          ELSE [e |-> a.e, s |-> a.s + 1, v |-> Append(a.v, a.s + 1)],
                            [e |-> 0, s |-> 0, v |-> <<>>], [i \in 1..n |-> i])
            val(seq, i) == IF seq = <<>> THEN <<>> ELSE seq[i]
        IN IF ord.s > Len(st.subs) THEN BAD
           ELSE
           LET one(i) ==
             LET k == ord.v[i]
             IN [nu |-> IF kNames \in pr.seen THEN pr.nm[i] ELSE <<>>,
                 hs |-> ~es(i),
                 dir |-> es(i) /\ ~(kEmptyFile \in pr.seen /\ pr.ef[k]),
                 anti |-> es(i) /\ kAnti \in pr.seen /\ pr.an[k],
                 ct |-> val(pr.ct, i), at |-> val(pr.at, i), mt |-> val(pr.mt, i), attr |-> val(pr.attr, i),
                 crc |-> IF es(i) THEN <<>> ELSE st.subs[k].crc,
                 size |-> IF es(i) THEN Zero64 ELSE st.subs[k].size,
                 sub |-> IF es(i) THEN 0 ELSE k]
           IN OK(p2, [files |-> [i \in 1..n |-> one(i)],
                      \* left over streams, or no names: readers differ
                      free |-> ord.s < Len(st.subs) \/ (n > 0 /\ kNames \notin pr.seen)])))

RECURSIVE ArchProps(_, _)
ArchProps(b, p) ==
  IF p > Len(b) THEN BAD
  ELSE IF b[p] = kEnd THEN OK(p + 1, <<>>)
  ELSE Then(Num(b, p + 1), LAMBDA q, sz : IF Int64(sz) > Len(b) - q + 1 THEN BAD ELSE ArchProps(b, q + Int64(sz)))

NoStreams == [pack |-> NoPack, folders |-> <<>>, subs |-> <<>>, spare |-> 0]
Header(b) ==
  IF Len(b) = 0 \/ b[1] # kHeader THEN BAD
  ELSE
  LET ap == IF Len(b) >= 2 /\ b[2] = kArchiveProps THEN ArchProps(b, 3) ELSE OK(2, <<>>)
  IN Then(ap, LAMBDA p1, x :
     IF p1 > Len(b) THEN BAD
     ELSE IF b[p1] = kAddStreams THEN UNS
     ELSE
     LET ms == IF b[p1] = kMainStreams THEN Streams(b, p1 + 1) ELSE OK(p1, NoStreams)
     IN Then(ms, LAMBDA p2, st :
        IF p2 > Len(b) THEN BAD
        ELSE
        LET fi == IF b[p2] = kFilesInfo THEN Files(b, p2 + 1, st)
                  ELSE OK(p2, [files |-> <<>>, free |-> Len(st.subs) > 0])
        IN Then(fi, LAMBDA p3, f :
             IF p3 > Len(b) \/ b[p3] # kEnd THEN BAD
             ELSE IF p3 < Len(b) \/ f.free THEN UNS       \* bytes behind the header
             ELSE OK(p3 + 1, [streams |-> st, files |-> f.files]))))

\* what the entry i occupies: an entry belongs to folder f if its stream does, or if it lies
\* between two entries of f
FolderOf(h, i) ==
  IF h.files[i].hs THEN h.streams.subs[h.files[i].sub].folder
  ELSE LET before == {j \in 1..(i - 1) : h.files[j].hs}
           after == {j \in (i + 1)..Len(h.files) : h.files[j].hs}
       IN IF before = {} \/ after = {} THEN 0
          ELSE LET a == CHOOSE x \in before : \A y \in before : y <= x
                   c == CHOOSE x \in after : \A y \in after : x <= y
                   fa == h.streams.subs[h.files[a].sub].folder
               IN IF fa = h.streams.subs[h.files[c].sub].folder THEN fa ELSE 0

\* first packed stream (1-based) of a folder, and where it starts relative to the pack position
FirstPack(h, f) == 1 + SumSeq([i \in 1..(f - 1) |-> Len(h.streams.folders[i].packed)])
PackOffset(h, k) == PackEnd(h.streams.pack.pos, SubSeq(h.streams.pack.sizes, 1, k - 1)).v

\* the encoded header record: streams, then nothing
Encoded(b) ==
  IF Len(b) = 0 \/ b[1] # kEncoded THEN BAD
  ELSE Then(Streams(b, 2), LAMBDA p, st :
         IF p <= Len(b) \/ Len(st.folders) # 1 \/ st.spare # 0 THEN UNS ELSE OK(p, st))

----------------------------------------------------------------------------
(* Signature header *)
StartHeader(b) ==
  IF Len(b) < 32 \/ SubSeq(b, 1, 6) # Signature THEN BAD
  ELSE IF b[7] # 0 THEN BAD
  ELSE IF Crc32(Sub(b, 13, 20)) # LE32(b, 9) THEN BAD
  ELSE OK(33, [off |-> LE64(b, 13), size |-> LE64(b, 21), crc |-> LE32(b, 29), minor |-> b[8]])

----------------------------------------------------------------------------
(* Writing: NUM in n extra bytes (the format allows more than needed)       *)
NumBytes(l, n) ==           \* 0 <= n <= 8, l fits 7*(n+1) bits (n < 8)
  LET bs == LimbBytes(l)
      top == IF n >= 7 THEN 0 ELSE bs[n + 1]
      first == (256 - P2[8 - n]) + top
  IN <<first>> \o SubSeq(bs, 1, n)
FitsIn(l, n) == LET bs == LimbBytes(l)
                IN /\ \A i \in (n + 2)..8 : bs[i] = 0
                   /\ (n < 8) => bs[n + 1] < P2[7 - n]
MinNum(l) == NumBytes(l, CHOOSE n \in 0..8 : FitsIn(l, n) /\ (n = 0 \/ ~FitsIn(l, n - 1)))
NumI(k) == MinNum(L64(k))
PackBits(s) ==
  [k \in 1..CeilDiv(Len(s), 8) |->
     SumSeq([j \in 1..8 |-> IF 8 * (k - 1) + j <= Len(s) /\ s[8 * (k - 1) + j] THEN P2[8 - j] ELSE 0])]
\* a digest list: <<>> where undefined; explicit: write the bit vector even if all are defined
PutDefined(vals, explicit) ==
  LET defs == [i \in 1..Len(vals) |-> vals[i] # <<>>]
      all == \A i \in 1..Len(vals) : defs[i]
  IN IF all /\ ~explicit THEN <<1>> ELSE <<0>> \o PackBits(defs)
PutVals(vals) == Cat([i \in 1..Len(vals) |-> LimbBytes(vals[i])])
=============================================================================
