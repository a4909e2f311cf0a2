------------------------------- MODULE MC_Store -------------------------------
(***************************************************************************)
(* A writer over a device: adds write packed data in pieces, finishing       *)
(* writes the header behind it, goes back, and writes the start header.      *)
(* The device may fail at any operation (the operation then reports an       *)
(* error), may go on failing, and the writing may stop anywhere, the last    *)
(* piece partly written.                                                     *)
(*                                                                         *)
(* img.start: 0 nothing, 1 signature and version only (the rest reads as     *)
(* zeros), 2 partly written, 3 complete.  img.data: the pieces behind it,    *)
(* img.hdr: <<>> or the pieces the header describes and whether all of it is *)
(* there.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxAdds, MaxPieces, Emit

VARIABLES pc, plan, cur, done, img, res, fault, broken
vars == <<pc, plan, cur, done, img, res, fault, broken>>
\* plan: pieces of each add; cur: pieces of the running add that were written; done: adds reported ok
\* res: outcome of each operation; fault: "no" or where and how the device failed; broken: it goes on failing

NoHdr == [of |-> <<>>, full |-> FALSE, is |-> FALSE]
Init == /\ pc = "ready" /\ plan = <<>> /\ cur = 0 /\ done = <<>> /\ res = <<>> /\ fault = [at |-> 0, ph |-> "no", sticky |-> FALSE]
        /\ broken = FALSE /\ img = [start |-> 0, data |-> <<>>, hdr |-> NoHdr]

Begin == /\ pc = "ready" /\ Len(plan) < MaxAdds
         /\ \E n \in 1..MaxPieces : plan' = Append(plan, n)
         /\ cur' = 0 /\ pc' = "add"
         /\ UNCHANGED <<done, img, res, fault, broken>>
Piece == /\ pc = "add" /\ cur < plan[Len(plan)] /\ ~broken
         /\ cur' = cur + 1
         /\ img' = [img EXCEPT !.data = done]      \* a piece goes where the packed data ended
         /\ UNCHANGED <<pc, plan, done, res, fault, broken>>
Added == /\ pc = "add" /\ cur = plan[Len(plan)]
         /\ done' = Append(done, Len(plan)) /\ img' = [img EXCEPT !.data = done']
         /\ res' = Append(res, "ok") /\ pc' = "ready"
         /\ UNCHANGED <<plan, cur, fault, broken>>
\* the device fails
Fails == /\ pc \in {"add", "hdr", "seek", "sig"} /\ (broken \/ fault.ph = "no")
         /\ \E s \in (IF broken THEN {TRUE} ELSE BOOLEAN) : broken' = s /\ fault' = [fault EXCEPT !.sticky = s, !.at = IF broken THEN fault.at ELSE Len(res) + 1,
                      !.ph = IF broken THEN fault.ph ELSE IF pc # "add" THEN pc ELSE IF cur = 0 THEN "first" ELSE "later"]
         /\ res' = Append(res, "err")
         /\ pc' = IF pc = "add" THEN "ready" ELSE "over"
         /\ UNCHANGED <<plan, cur, done, img>>
Header == /\ pc = "ready" /\ Len(plan) > 0 /\ pc' = "hdr" /\ UNCHANGED <<plan, cur, done, img, res, fault, broken>>
WriteHdr == /\ pc = "hdr" /\ ~broken /\ img' = [img EXCEPT !.hdr = [of |-> done, full |-> TRUE, is |-> TRUE]] /\ pc' = "seek"
            /\ UNCHANGED <<plan, cur, done, res, fault, broken>>
Back == pc = "seek" /\ ~broken /\ pc' = "sig" /\ UNCHANGED <<plan, cur, done, img, res, fault, broken>>
WriteSig == /\ pc = "sig" /\ ~broken /\ img' = [img EXCEPT !.start = 3] /\ res' = Append(res, "ok") /\ pc' = "over"
            /\ UNCHANGED <<plan, cur, done, fault, broken>>
\* the power fails, in the middle of a piece or between two
Crash == /\ pc \in {"ready", "add", "hdr", "seek", "sig"}
         /\ img' \in ({img} \cup (IF pc = "hdr" THEN {[img EXCEPT !.hdr = [of |-> done, full |-> FALSE, is |-> TRUE]]} ELSE {})
                            \cup (IF pc = "sig" THEN {[img EXCEPT !.start = s] : s \in 1..2} ELSE {}))
         /\ pc' = "crashed" /\ UNCHANGED <<plan, cur, done, res, fault, broken>>
Report == /\ pc = "over" /\ pc' = "reported"
          /\ (Emit => PrintT("SC " \o ToJson([plan |-> plan, res |-> res, fault |-> fault])))
          /\ UNCHANGED <<plan, cur, done, img, res, fault, broken>>
Next == Begin \/ Piece \/ Added \/ Fails \/ Header \/ WriteHdr \/ Back \/ WriteSig \/ Crash \/ Report
Spec == Init /\ [][Next]_vars

\* a reader: the start header says where the header is, or, when it is zero, the end of the file is searched
Read == CASE img.start = 3 -> IF img.hdr.full THEN [ok |-> TRUE, of |-> img.hdr.of] ELSE [ok |-> FALSE, of |-> <<>>]
          [] img.start = 1 -> IF img.hdr.full THEN [ok |-> TRUE, of |-> img.hdr.of] ELSE [ok |-> FALSE, of |-> <<>>]
          [] OTHER -> [ok |-> FALSE, of |-> <<>>]
CrashSafe == pc = "crashed" => (Read.ok => Read.of = done)
FaultShown == fault.at > 0 /\ fault.at <= Len(res) => res[fault.at] = "err"
FinishedIsAll == (pc = "over" /\ res[Len(res)] = "ok") => Read.ok /\ Read.of = done /\ Len(done) = Cardinality({i \in 1..(Len(res) - 1) : res[i] = "ok"})
NotFinished == (pc = "over" /\ res[Len(res)] = "err") => ~Read.ok
\* the header describes pieces that are there
Described == img.hdr.full => img.hdr.of = done /\ Len(img.data) >= Len(done)
=============================================================================
