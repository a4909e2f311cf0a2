------------------------------ MODULE MC_Secret -------------------------------
(***************************************************************************)
(* Writer sessions in which encryption of content and of the header is      *)
(* switched on and off, and what somebody without the password learns.      *)
(***************************************************************************)
EXTENDS MC_Session
L(op, ks, f) == [op |-> op, ks |-> ks, fail |-> f, m |-> "", on |-> TRUE]
M(m) == [op |-> "setm", ks |-> <<>>, fail |-> "no", m |-> m, on |-> TRUE]
H(on) == [op |-> "sethdr", ks |-> <<>>, fail |-> "no", m |-> "", on |-> on]
Secrets == {L("file", <<"data">>, "no"), L("file", <<"empty">>, "no"), L("file", <<"dir">>, "no"), L("file", <<"data">>, "src"),
            L("solid", <<"data", "data">>, "no"), L("solid", <<"data", "empty", "data">>, "no"),
            M("aes"), M("plain"), H(TRUE), H(FALSE)}
Z(k) == IF k = "data" THEN 7 ELSE 0

Secret(i) == w.ent[i].blk # 0 /\ w.blk[w.ent[i].blk].meth = "aes" /\ w.ent[i].n # Zero64
Locked == WantsHdrEnc(w, {"aes"})
\* what is learnt without the password
SeenNames == IF Locked THEN {} ELSE 1..Len(w.ent)
SeenData == IF Locked THEN {} ELSE {i \in 1..Len(w.ent) : ~Secret(i)}
----------------------------------------------------------------------------
HeaderKept == w.fin /\ w.hdr /\ (\E i \in 1..Len(w.ent) : Secret(i)) => SeenNames = {}
ContentKept == w.fin => \A i \in SeenData : ~Secret(i)
OpenListing == w.fin /\ ~w.hdr => SeenNames = 1..Len(w.ent)
\* what decides is the flag when the archive is finished, and which blocks there are by then
Switched == [][w'.fin /\ ~w.fin => WantsHdrEnc(w', {"aes"}) = WantsHdrEnc(w, {"aes"})]_vars
=============================================================================
