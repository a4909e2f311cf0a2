-------------------------------- MODULE J_Crypt --------------------------------
(* Encrypted archives: C14.                                                  *)
EXTENDS Crypto, Verdict, JudgeBase

\* r: died, made ("ok" or what the writer said), locked (the header is encrypted), ents [enc, n], props, pw (units: the right one),
\*    plain [props, data, want] pairs to be computed in full,
\*    tries [pw (units), none, ok, open, end, visits [i, st, rel]]
Same(r, t) == /\ ~t.none
              /\ SameKey(AesProps(r.props), PwBytes(r.pw), PwBytes(t.pw))
\* a handful of bytes may come out right under a wrong key by chance
Telling(e) == e.enc /\ e.n >= 8
Secret(r) == \E i \in 1..Len(r.ents) : Telling(r.ents[i])
\* an entry that is delivered complete has its own bytes; a locked one is delivered under the right password only
Visit(r, t, v) ==
  LET e == r.ents[v.i + 1]
  IN First(<<If(v.st = "ok" /\ v.rel # "eq", "delivered complete with wrong bytes"),
             If(v.st \notin {"ok", "err"}, "reading ends oddly: " \o v.st),
             If(Telling(e) /\ ~Same(r, t) /\ v.st = "ok", "delivered without the right password"),
             If((Same(r, t) \/ ~e.enc) /\ v.st # "ok", "not delivered: " \o v.st)>>)
Try(r, t) ==
  IF Same(r, t) # t.ok THEN Assert(FALSE, "generator and judge differ over a password")
  ELSE First(<<
    If(t.open # "ok" /\ (Same(r, t) \/ ~r.locked), "opening fails: " \o t.open),
    If(t.open = "ok" /\ r.locked /\ ~Same(r, t), "a locked header is read without the right password"),
    If(\E p \in {t.open, t.end} : Len(p) >= 5 /\ SubSeq(p, 1, 5) = "panic", "panics"),
    IF t.open # "ok" THEN "" ELSE First(<<
      All(Len(t.visits), LAMBDA i : At("entry ", t.visits[i].i, Visit(r, t, t.visits[i]))),
      If(Same(r, t) /\ t.end # "ok", "reading fails under the right password: " \o t.end),
      If(Same(r, t) /\ {t.visits[i].i : i \in 1..Len(t.visits)} # 0..(Len(r.ents) - 1), "not every entry is visited"),
      If(~Same(r, t) /\ Secret(r) /\ t.end = "ok", "no error without the right password")>>)>>)
\* what the specification says the packed bytes stand for
Clear(r) == All(Len(r.plain), LAMBDA k :
  LET x == r.plain[k]
      p == Plain(x.props, r.pw, x.data)
  IN If(Sub(p, 1, Len(x.want)) # x.want,
        IF r.foreign THEN Assert(FALSE, "the archive is not what it should be") ELSE "the packed bytes do not stand for the content"))
V(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE IF r.made # "ok" THEN "writing fails: " \o r.made
  ELSE First(<<Clear(r), All(Len(r.tries), LAMBDA i : At("attempt ", i, Try(r, r.tries[i])))>>)
=============================================================================
