----------------------------- MODULE MC_Malformed -----------------------------
(***************************************************************************)
(* Headers that are cut and pasted from legal ones: a beginning, at most     *)
(* Ins pieces of any kind, and an end taken up anywhere.  Header and         *)
(* Encoded have to say what each means (they are total), and what they       *)
(* accept is bounded by what is there.  The bytes are printed for replay.    *)
(***************************************************************************)
EXTENDS SevenZ, TLC, Json

CONSTANTS Which, Ins, Emit

Le4(a, b, c, d) == <<a, b, c, d>>
Crc4 == <<1, 2, 3, 4>>
T8 == <<0, 0, 2, 3, 4, 5, 6, 1>>
\* 1: a file and a directory, one copied block
L1 == << <<1>>, <<4>>, <<6, 0, 1>>, <<9, 3>>, <<0>>, <<7>>, <<11, 1, 0>>, <<1>>, <<1, 0>>, <<12, 3>>, <<0>>, <<8>>,
         <<10, 1>> \o Crc4, <<0>>, <<0>>, <<5, 2>>, <<14, 1, 64>>, <<17, 9, 0>>, <<97, 0, 0, 0>>, <<98, 0, 0, 0>>, <<0>>, <<0>> >>
\* 2: two blocks, two coders with a binding, three streams, digests, times, attributes, an empty file
L2 == << <<1>>, <<2, 5, 1, 9, 0>>, <<4>>, <<6, 0, 2>>, <<9, 4, 6>>, <<10, 0, 64>> \o Crc4, <<0>>, <<7, 11, 2, 0>>, <<2>>, <<1, 0>>, <<33, 3, 1, 0>>, <<0, 1>>,
         <<1>>, <<17, 0, 1, 1>>, <<12, 4, 4, 6>>, <<10, 0, 128>> \o Crc4, <<0>>, <<8>>, <<13, 1, 2>>, <<9, 2>>, <<10, 0, 64>> \o Crc4, <<0>>, <<0>>,
         <<5, 4>>, <<25, 2, 0, 0>>, <<14, 1, 16>>, <<15, 1, 128>>, <<16, 1, 0>>, <<17, 17, 0>>, <<97, 0, 0, 0>>, <<98, 0, 0, 0>>, <<99, 0, 0, 0>>, <<100, 0, 0, 0>>,
         <<20, 19, 0, 160, 0>> \o T8 \o T8, <<21, 18, 1, 0>> \o Crc4 \o Crc4 \o Crc4 \o Crc4, <<0>>, <<0>> >>
\* 3: four streams through a converter with four inputs
L3 == << <<1>>, <<4>>, <<6, 1, 4>>, <<9, 8, 0, 0, 5>>, <<0>>, <<7, 11, 1, 0>>, <<1>>, <<20, 3, 3, 1, 27>>, <<4, 1>>, <<0>>, <<1>>, <<2>>, <<3>>, <<12, 8>>, <<0>>, <<8>>, <<0>>, <<0>>,
         <<5, 1>>, <<17, 5, 0>>, <<97, 0, 0, 0>>, <<0>>, <<0>> >>
\* 4: an encoded header
L4 == << <<23>>, <<6, 3, 1>>, <<9, 20>>, <<10, 1>> \o Crc4, <<0>>, <<7, 11, 1, 0>>, <<1>>, <<1, 0>>, <<12, 20>>, <<10, 1>> \o Crc4, <<0>>, <<0>> >>
Legal == CASE Which = 1 -> L1 [] Which = 2 -> L2 [] Which = 3 -> L3 [] Which = 4 -> L4
Huge == <<255, 255, 255, 255, 255, 255, 255, 255, 127>>
Pieces == << <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>, <<14>>, <<15>>, <<16>>, <<17>>, <<20>>, <<21>>, <<23>>, <<24>>, <<25>>,
             <<32>>, <<33>>, <<64>>, <<127>>, <<128, 128>>, <<255>>, <<224, 0, 0, 16>>, Huge >>

VARIABLES i, ins, j
vars == <<i, ins, j>>
Init == i \in 0..Len(Legal) /\ ins = <<>> /\ j \in 1..(Len(Legal) + 1)
Paste == /\ Len(ins) < Ins /\ \E k \in 1..Len(Pieces) : ins' = Append(ins, k)
         /\ UNCHANGED <<i, j>>
Next == Paste
Spec == Init /\ [][Next]_vars

B == Cat(SubSeq(Legal, 1, i)) \o Cat([k \in 1..Len(ins) |-> Pieces[ins[k]]]) \o Cat(SubSeq(Legal, j, Len(Legal)))
Read1 == IF Which = 4 THEN Encoded(B) ELSE Header(B)
Total == Read1.s \in {"ok", "bad", "uns"}
Bounded == (Which # 4 /\ Read1.s = "ok") => /\ Len(Read1.v.files) <= 8 * Len(B)
                                            /\ Len(Read1.v.streams.subs) <= Len(B)
                                            /\ Len(Read1.v.streams.folders) <= Len(B)
LegalOk == (ins = <<>> /\ j = i + 1) => Read1.s = "ok"
Emitted == Emit => PrintT("SC " \o ToJson(B))
=============================================================================
