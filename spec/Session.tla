------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A writer session and the iteration over the archive it leaves.          *)
(*                                                                         *)
(* The writer's state: the entries added so far, the blocks (groups of      *)
(* entries compressed together), the methods and the header-encryption flag *)
(* in force, and whether the archive is finished.  Operations are functions  *)
(* of the state, used both as the actions of MC_Session and, folded over a   *)
(* recorded session, to judge what the code did.                            *)
(*                                                                         *)
(* An add is a record: op "file"|"solid", as: the entries, each             *)
(*   [nu, dir, anti, ct, at, mt, attr, rd (a reader is given), n, crc, h]    *)
(*   with n the number of bytes (u64 limbs), crc and h facts about the bytes *)
(*   and fail: some source of the add fails before its end.                 *)
(***************************************************************************)
EXTENDS Bytes

W0 == [ent |-> <<>>, blk |-> <<>>, meth |-> "default", hdr |-> TRUE, fin |-> FALSE]

IsZero(l) == \A i \in 1..Len(l) : l[i] = 0

\* does the entry bring bytes of its own into the archive's streams?
HasStream(op, a) == IF op.op = "solid" THEN ~a.dir ELSE ~a.dir /\ a.rd

\* the methods some encoder exists for, and whether the key is there
EncodableM == {"LZMA", "LZMA2", "AES"}

\* an add must fail when a source it reads fails, when the methods cannot be applied, or when
\* a directory comes with bytes inside a solid group; it must succeed otherwise
MustFail(w, op) ==
  IF op.op = "file" THEN HasStream(op, op.as[1]) /\ (op.fail \/ op.badm)
  ELSE op.fail \/ op.badm \/ \E i \in 1..Len(op.as) : op.as[i].dir /\ ~IsZero(op.as[i].n)

Entry(op, a, b) ==
  LET s == HasStream(op, a)
  IN [nu |-> a.nu, dir |-> a.dir, anti |-> a.anti, ct |-> a.ct, at |-> a.at, mt |-> a.mt, attr |-> a.attr,
      str |-> s, n |-> IF s THEN a.n ELSE Zero64, crc |-> a.crc, h |-> a.h, blk |-> IF s THEN b ELSE 0]

\* an add that succeeds: its entries, in order, behind the earlier ones; one new block for its bytes
Add(w, op) ==
  LET newblk == op.op = "solid" \/ HasStream(op, op.as[1])
      b == Len(w.blk) + 1
  IN [w EXCEPT !.ent = @ \o [i \in 1..Len(op.as) |-> Entry(op, op.as[i], b)],
               !.blk = IF newblk THEN Append(@, [meth |-> w.meth]) ELSE @]

Step(w, op, ok) ==
  CASE op.op \in {"file", "solid"} -> IF ok THEN Add(w, op) ELSE w     \* a failed add leaves no trace
    [] op.op = "setm" -> [w EXCEPT !.meth = op.m]
    [] op.op = "sethdr" -> [w EXCEPT !.hdr = op.on]
    [] op.op = "finish" -> IF ok THEN [w EXCEPT !.fin = TRUE] ELSE w
    [] OTHER -> w

Enc(m, AESM) == m \in AESM
\* header encryption asked for and possible: some method in force or used by a block has a key
WantsHdrEnc(w, AESM) == w.hdr /\ (Enc(w.meth, AESM) \/ \E i \in 1..Len(w.blk) : Enc(w.blk[i].meth, AESM))

----------------------------------------------------------------------------
(* Reading: the blocks in order, then the entries outside of the blocks.    *)
(* An entry without a stream between two entries of a block belongs to it.  *)

BlockOf(ents, i) ==
  IF ents[i].str THEN ents[i].blk
  ELSE LET bf == {j \in 1..(i - 1) : ents[j].str}
           af == {j \in (i + 1)..Len(ents) : ents[j].str}
       IN IF bf = {} \/ af = {} THEN 0
          ELSE LET j == CHOOSE x \in bf : \A y \in bf : y <= x
                   k == CHOOSE x \in af : \A y \in af : x <= y
               IN IF ents[j].blk = ents[k].blk THEN ents[j].blk ELSE 0
=============================================================================
