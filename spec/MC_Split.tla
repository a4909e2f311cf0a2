------------------------------- MODULE MC_Split -------------------------------
(***************************************************************************)
(* A decoding pipeline between a source that gives any number of bytes per   *)
(* read and a consumer that asks for any number: a stage that works on whole *)
(* units of Unit cells (a cipher), a stage that holds back up to Back cells  *)
(* until it sees more or the end (a branch filter), and the consumer.        *)
(* Whatever the splits, the consumer gets the cells in order, and the end    *)
(* only behind the last.  The splits are printed for replay.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Len0,      \* cells at the source, a multiple of Unit
          Unit, Back, MaxRead, MaxAsk, Emit

VARIABLES pos,       \* cells taken from the source
          part,      \* cells that do not make a unit yet
          held,      \* cells decoded and not delivered
          eof,       \* the source has ended
          got,       \* delivered
          over,      \* the consumer was told that this is the end
          rs, as     \* sizes of the reads and of the consumer's buffers
vars == <<pos, part, held, eof, got, over, rs, as>>

Init == pos = 0 /\ part = <<>> /\ held = <<>> /\ eof = FALSE /\ got = <<>> /\ over = FALSE /\ rs = <<>> /\ as = <<>>
MinI(a, b) == IF a < b THEN a ELSE b
\* cells that may go out now
Free == IF eof THEN Len(held) ELSE IF Len(held) > Back THEN Len(held) - Back ELSE 0

\* the stages ask the source when nothing can go out
Fill == /\ ~over /\ ~eof /\ Free = 0
        /\ IF pos = Len0 THEN eof' = TRUE /\ UNCHANGED <<pos, part, held, rs>>
           ELSE \E n \in 1..MinI(MaxRead, Len0 - pos) :
                  LET p == part \o [i \in 1..n |-> pos + i]
                      w == (Len(p) \div Unit) * Unit
                  IN /\ held' = held \o SubSeq(p, 1, w)
                     /\ part' = SubSeq(p, w + 1, Len(p))
                     /\ pos' = pos + n /\ rs' = Append(rs, n) /\ eof' = FALSE
        /\ UNCHANGED <<got, over, as>>
Take == /\ ~over /\ Free > 0
        /\ \E a \in 1..MaxAsk :
             LET n == MinI(a, Free)
             IN got' = got \o SubSeq(held, 1, n) /\ held' = SubSeq(held, n + 1, Len(held)) /\ as' = Append(as, a)
        /\ UNCHANGED <<pos, part, eof, over, rs>>
End == /\ ~over /\ eof /\ Free = 0 /\ over' = TRUE
       /\ (Emit => PrintT("SC " \o ToJson([src |-> rs, buf |-> as])))
       /\ UNCHANGED <<pos, part, held, eof, got, rs, as>>
Next == Fill \/ Take \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == got = [i \in 1..Len(got) |-> i]
Complete == over => Len(got) = Len0 /\ part = <<>>
Conserved == Len(got) + Len(held) + Len(part) = pos
EndsAlways == <>over
=============================================================================
