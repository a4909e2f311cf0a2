------------------------------ MODULE MC_Filters -------------------------------
(***************************************************************************)
(* A filter on a stream that grows byte by byte, over an alphabet that makes *)
(* its instructions frequent.                                               *)
(***************************************************************************)
EXTENDS Filters, Json
CONSTANTS Kind, Dist, Letters, MaxLen, EmitFrom
VARIABLES b, done
vars == <<b, done>>
Init == b = <<>> /\ done = <<>>
\* done: what a decoder may have passed on before the byte that comes
Next == /\ Len(b) < MaxLen
        /\ \E x \in Letters : b' = Append(b, x)
        /\ done' = LET o == Filter(Kind, Dist, b, FALSE) IN SubSeq(o, 1, Len(o) - Ahead(Kind))
        /\ (Len(b') >= EmitFrom => PrintT("SC " \o ToJson(b')))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Out == Filter(Kind, Dist, b, FALSE)
SameLength == Len(Out) = Len(b)
\* both directions undo each other
Restores == /\ Filter(Kind, Dist, Filter(Kind, Dist, b, TRUE), FALSE) = b
Converts == Filter(Kind, Dist, Out, TRUE) = b
\* what a byte becomes does not depend on what comes later than the look-ahead: a stream can be decoded in pieces
Stream == IsPrefix(done, Out)
=============================================================================
