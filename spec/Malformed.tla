------------------------------ MODULE Malformed ------------------------------
(***************************************************************************)
(* What any input at all may lead to: a result or an error, in bounded       *)
(* memory; and an error where the format forbids the header.                *)
(* Memory is counted in KiB.                                                *)
(***************************************************************************)
EXTENDS SevenZ

If5(c, s) == IF c THEN s ELSE ""
First5(ss) == LET bad == SelectSeq(ss, LAMBDA s : s # "") IN IF bad = <<>> THEN "" ELSE bad[1]
ErrClass(s) == s \in {"err", "err:password_required", "err:injected", "err:visitor"}

\* dictionary a coder declares, in KiB
KiB32(l) == l[1] \div 1024 + l[2] * 64 + 1
DictOf(c) ==
  CASE c.id = idLZMA -> IF Len(c.props) >= 5 THEN KiB32(LE32(c.props, 2)) ELSE 0
    [] c.id = idLZMA2 -> IF Len(c.props) >= 1 THEN (IF c.props[1] >= 40 THEN 4194304 ELSE (2 + (c.props[1] % 2)) * P2[MinI(19, c.props[1] \div 2)] * 2 + 4) ELSE 0
    [] c.id = idBZip2 -> 8192
    [] c.id = idZstd -> 270336                     \* frames declare windows of up to 128 MiB
    [] OTHER -> 64
Dicts(st) == SumSeq([f \in 1..Len(st.folders) |-> SumSeq([k \in 1..Len(st.folders[f].coders) |-> DictOf(st.folders[f].coders[k])])])
BaseKiB == 65536
PerByteKiB == 4
Budget(len, dicts) == BaseKiB + PerByteKiB * len + 2 * dicts

\* r: died, open, end, st (visit states), peak (KiB), len
Outcome(r) ==
  IF r.died # "" THEN "the run died: " \o r.died
  ELSE First5(<<If5(r.open # "ok" /\ ~ErrClass(r.open), "open: " \o r.open),
                If5(r.open = "ok" /\ r.end # "ok" /\ ~ErrClass(r.end), "iteration: " \o r.end),
                If5(\E k \in 1..Len(r.st) : r.st[k] \notin {"ok", "err", "part", "skip"}, "a read that goes on or goes wrong")>>)
\* a header in the clear
HeaderRule(r) ==
  LET h == IF r.bytes # <<>> /\ r.bytes[1] = kEncoded THEN Encoded(r.bytes) ELSE Header(r.bytes)
      st == IF r.bytes # <<>> /\ r.bytes[1] = kEncoded THEN h.v ELSE h.v.streams
  IN First5(<<Outcome(r),
              If5(h.s = "bad" /\ r.bytes # <<>> /\ r.open = "ok", "a header that the format forbids is accepted"),
              If5(h.s # "uns" /\ r.peak > Budget(r.len, IF h.s = "ok" THEN Dicts(st) ELSE 0), "too much memory")>>)
\* a header that is itself compressed, or a stream read on its own: bytes of the inner header if they are known, dicts declared
InnerRule(r) ==
  First5(<<Outcome(r),
           If5(r.bytes # <<>> /\ Header(r.bytes).s = "bad" /\ r.open = "ok", "a header that the format forbids is accepted"),
           If5(r.peak > Budget(r.len, r.dicts), "too much memory")>>)
=============================================================================
