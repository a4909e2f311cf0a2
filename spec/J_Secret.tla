------------------------------- MODULE J_Secret --------------------------------
(***************************************************************************)
(* Sessions that encrypt: what the finished file gives away: C15.           *)
(* r: died, ops (as of Session; the methods it starts with come first),     *)
(*    pw (units), b (the file; <<>> when too long), deep,                   *)
(*    names, datas: for each entry whether its name, its bytes were found,  *)
(*    tries [pw, none, open, list, end, visits]                             *)
(***************************************************************************)
EXTENDS SevenZ, SessionJudge, JudgeBase
CR == INSTANCE Crypto
LZ == INSTANCE Lzma

Hides(w, i) == w.ent[i].blk # 0 /\ w.blk[w.ent[i].blk].meth = "aes" /\ ~IsZero(w.ent[i].n)
AnySecret(w) == \E i \in 1..Len(w.ent) : Hides(w, i)
\* a handful of bytes may come out right under a wrong key by chance
Telling(w, i) == Hides(w, i) /\ ~LtL(w.ent[i].n, <<8, 0, 0, 0>>)
Locked(w) == WantsHdrEnc(w, {"aes"})

\* the file itself: the header is packed with a coder that needs a key ...
Decoded(f, pw, data) ==
  \* from the packed side to the unpacked one
  LET n == Len(f.coders)
      src(k) == LET b == SelectSeq(f.binds, LAMBDA x : x[1] = k - 1) IN IF b = <<>> THEN 0 ELSE b[1][2] + 1
      one(k, d) == LET c == f.coders[k]
                       m == Int64(f.sizes[k])
                   IN IF c.id = idAES THEN Sub(CR!Plain(c.props, pw, d), 1, m)
                      ELSE IF c.id = idLZMA THEN LZ!DecodeLzma(d, c.props[1], Int64(LE32(c.props, 2) \o <<0, 0>>), m, <<>>).out
                      ELSE IF c.id = idCopy THEN d ELSE <<>>
      order == FoldLeft(LAMBDA a, i : IF src(a[1]) = 0 THEN a ELSE <<src(a[1])>> \o a, <<f.main + 1>>, [i \in 1..(n - 1) |-> i])
  IN FoldLeft(LAMBDA d, k : one(k, d), data, order)
File(w, r) ==
  LET sh == StartHeader(r.b).v
      at == 32 + Int64(sh.off)
      raw == SubSeq(r.b, at + 1, at + Int64(sh.size))
      enc == Encoded(raw)
  IN IF ~IsOk(StartHeader(r.b)) THEN "start header"
     ELSE IF raw = <<>> \/ raw[1] # kEncoded THEN "the header is stored as it is"
     ELSE IF ~IsOk(enc) THEN "encoded header: " \o enc.s
     ELSE LET f == enc.v.folders[1]
              aes == {k \in 1..Len(f.coders) : f.coders[k].id = idAES}
          IN IF aes = {} THEN "the header is not encrypted"
             ELSE IF ~r.deep \/ \E k \in aes : CR!AesProps(f.coders[k].props).power \notin (0..3 \cup {63}) THEN ""
             ELSE \* ... and under that key it is the listing of the session
                  LET p == 32 + Int64(enc.v.pack.pos)
                      h == Header(Decoded(f, r.pw, SubSeq(r.b, p + 1, p + Int64(enc.v.pack.sizes[1]))))
                  IN IF h.s # "ok" THEN "the encrypted header is " \o h.s \o " under the password"
                     ELSE If([i \in 1..Len(h.v.files) |-> h.v.files[i].nu] # [i \in 1..Len(w.ent) |-> w.ent[i].nu], "the encrypted header lists other entries")

Right(r, t) == ~t.none /\ t.pw = r.pw
Lists(w, t) == ListOK(w.ent, t.list, {"core"})
Try(w, r, t) ==
  LET locked == Locked(w) /\ AnySecret(w)
      free == (~w.hdr) \/ ~Locked(w)
  IN First(<<
    If(Len(t.open) >= 5 /\ SubSeq(t.open, 1, 5) = "panic", "panics"),
    If(locked /\ ~Right(r, t) /\ t.open = "ok", "lists the entries without the password"),
    If((free \/ Right(r, t)) /\ t.open # "ok", "opening fails: " \o t.open),
    IF t.open = "ok" THEN First(<<
      Lists(w, t),
      IF Right(r, t) THEN If(t.end # "ok", "reading fails under the password: " \o t.end)
      ELSE First(<<If((\E i \in 1..Len(w.ent) : Telling(w, i)) /\ t.end = "ok", "no error without the password"),
                   All(Len(t.visits), LAMBDA k :
                     LET v == t.visits[k] IN If(v.i >= 0 /\ Telling(w, v.i + 1) /\ v.st = "ok", "delivers an encrypted entry without the password"))>>)>>)
    ELSE "">>)
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE LET s == Run(r.ops)
           w == s.w
           locked == Locked(w) /\ AnySecret(w)
       IN IF s.why # "" THEN s.why
          ELSE IF ~w.fin THEN Assert(FALSE, "an unfinished session")
          ELSE First(<<
            IF locked THEN All(Len(w.ent), LAMBDA i : If(r.names[i], "the name of entry " \o ToString(i) \o " is in the file in clear")) ELSE "",
            All(Len(w.ent), LAMBDA i : If(Hides(w, i) /\ r.datas[i], "bytes of entry " \o ToString(i) \o " are in the file in clear")),
            IF locked /\ r.b # <<>> THEN File(w, r) ELSE "",
            All(Len(r.tries), LAMBDA k : At("attempt ", k, Try(w, r, r.tries[k])))>>)
=============================================================================
