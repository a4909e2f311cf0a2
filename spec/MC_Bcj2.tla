-------------------------------- MODULE MC_Bcj2 --------------------------------
(***************************************************************************)
(* Streams made token by token, and a reader that gets its four inputs in    *)
(* pieces and is asked for pieces of the output.                            *)
(***************************************************************************)
EXTENDS Bcj2, Json
CONSTANTS Letters, Targets, MaxTok, MaxOut, Fills, Asks, Emit
VARIABLES w, tok, ph, rd
vars == <<w, tok, ph, rd>>
NoRd == [pos |-> <<0, 0, 0, 0>>, have |-> <<0, 0, 0, 0>>, room |-> 0, pend |-> <<>>, prev |-> 0, got |-> <<>>, on |-> FALSE, rs |-> L!Start(<<>>, 1, <<<<>>>>), wait |-> FALSE, fills |-> <<>>, asks |-> <<>>]
Ctxs == {1, 2} \cup {3 + x : x \in Letters \cup {0, 255}}      \* those that can occur
Init == w = Made0(Ctxs) /\ tok = 0 /\ ph = "make" /\ rd = NoRd
S == Streams(w)
Of(i) == CASE i = 1 -> S.m [] i = 2 -> S.c [] i = 3 -> S.j [] i = 4 -> S.r

Byte1 == /\ ph = "make" /\ tok < MaxTok /\ Room(w) /\ Len(w.out) < MaxOut
         /\ \E x \in Letters : w' = Plain(w, x)
         /\ tok' = tok + 1 /\ UNCHANGED <<ph, rd>>
Branch == /\ ph = "make" /\ tok < MaxTok /\ Room(w) /\ Len(w.out) + 5 <= MaxOut
          /\ \E x \in Letters, t \in Targets : IsBranch(w.prev, x) /\ w' = Jump(w, x, <<t, t % 3>>)
          /\ tok' = tok + 1 /\ UNCHANGED <<ph, rd>>
Open == /\ ph = "make" /\ Len(w.out) > 0 /\ Fills # {}
        /\ ph' = "read" /\ rd' = NoRd /\ UNCHANGED <<w, tok>>
----------------------------------------------------------------------------
(* The reader.  rd.on: FALSE until five selector bytes are there.               *)
Total == Len(w.out)
Avail(i) == rd.have[i] - rd.pos[i]
\* the stream without which nothing more can be made (0: none is missing)
Needs ==
  IF rd.room = 0 \/ Len(rd.got) = Total THEN 0
  ELSE IF rd.pend # <<>> THEN 0
  ELSE IF ~rd.on THEN IF Avail(4) < 5 THEN 4 ELSE 0
  ELSE IF rd.wait THEN LET k == IF rd.prev = 232 THEN 2 ELSE 3 IN IF Avail(k) < 4 THEN k ELSE 0
  ELSE IF rd.rs.rh < 256 /\ Avail(4) < 1 THEN 4
  ELSE IF Avail(1) < 1 THEN 1 ELSE 0
Fill == /\ ph = "read" /\ Needs # 0
        /\ \E k \in Fills :
             LET i == Needs
                 n == IF k < Len(Of(i)) - rd.have[i] THEN k ELSE Len(Of(i)) - rd.have[i]
             IN n > 0 /\ rd' = [rd EXCEPT !.have[i] = @ + n, !.fills = IF Emit THEN Append(@, k) ELSE @]
        /\ UNCHANGED <<w, tok, ph>>
Ask == /\ ph = "read" /\ rd.room = 0 /\ Len(rd.got) < Total
       /\ \E k \in Asks : rd' = [rd EXCEPT !.room = k, !.asks = IF Emit THEN Append(@, k) ELSE @]
       /\ UNCHANGED <<w, tok, ph>>
Give(r, x) == [r EXCEPT !.got = Append(@, x), !.room = @ - 1]
Move ==
  /\ ph = "read" /\ Needs = 0 /\ rd.room > 0 /\ Len(rd.got) < Total
  /\ rd' = IF rd.pend # <<>> THEN Give([rd EXCEPT !.prev = rd.pend[1], !.pend = Tail(@)], rd.pend[1])
           ELSE IF ~rd.on THEN [rd EXCEPT !.on = TRUE, !.rs = L!Start(S.r, 1, <<Even(Ctxs)>>), !.pos[4] = 5]
           ELSE IF rd.wait
           THEN LET k == IF rd.prev = 232 THEN 2 ELSE 3
                IN [rd EXCEPT !.wait = FALSE, !.pos[k] = @ + 4, !.pend = LE4(Sub32(BE32(Of(k), rd.pos[k] + 1), W32(Len(rd.got) + 4)))]
           ELSE LET x == S.m[rd.pos[1] + 1]
                    q == [rd EXCEPT !.rs = L!Norm(S.r, @), !.pos[4] = rd.rs.p - 1]
                IN IF ~IsBranch(rd.prev, x) THEN Give([q EXCEPT !.prev = x, !.pos[1] = @ + 1], x)
                   ELSE LET b == L!Bit(S.r, q.rs, 1, Ctx(rd.prev, x))
                        IN Give([q EXCEPT !.prev = x, !.pos[1] = @ + 1, !.rs = b, !.pos[4] = b.p - 1, !.wait = b.bit = 1], x)
  /\ UNCHANGED <<w, tok, ph>>
Done == /\ ph = "read" /\ Len(rd.got) = Total
        /\ ph' = "done" /\ UNCHANGED <<w, tok, rd>>
        /\ (Emit => PrintT("SC " \o ToJson([s |-> S, n |-> Total, fills |-> rd.fills, asks |-> rd.asks])))
\* without reads: every stream that can be made
Only == /\ ph = "make" /\ Fills = {} /\ Len(w.out) > 0
        /\ ph' = "done" /\ UNCHANGED <<w, tok, rd>>
        /\ (Emit => PrintT("SC " \o ToJson([s |-> S, n |-> Total, fills |-> <<>>, asks |-> <<>>])))
Next == Byte1 \/ Branch \/ Open \/ Fill \/ Ask \/ Move \/ Done \/ Only
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Fill \/ Ask \/ Move \/ Done \/ Open)
----------------------------------------------------------------------------
\* the streams stand for what they were made of
Inverts == ph = "make" => Decode(S, Len(w.out)) = [out |-> w.out, e |-> ""]
\* and for nothing without one of their targets or the last main byte
Whole == ph = "make" /\ Len(w.out) > 0 =>
  /\ Decode([S EXCEPT !.m = SubSeq(@, 1, Len(@) - 1)], Len(w.out)).e # ""
  /\ Len(w.c) > 0 => Decode([S EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)], Len(w.out)).e # ""
  /\ Len(w.j) > 0 => Decode([S EXCEPT !.j = SubSeq(@, 1, Len(@) - 4)], Len(w.out)).e # ""
  /\ IsPrefix(Decode([S EXCEPT !.m = SubSeq(@, 1, Len(@) - 1)], Len(w.out)).out, w.out)
\* whatever comes in pieces is the same in the end, and in order
InOrder == ph # "make" => IsPrefix(rd.got, w.out)
\* the reader never waits for a byte that does not come
NoDeadWait == ph = "read" /\ Needs # 0 => rd.have[Needs] < Len(Of(Needs))
Ends == ph = "read" ~> ph = "done"
=============================================================================
