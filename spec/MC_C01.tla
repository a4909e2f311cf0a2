-------------------------------- MODULE MC_C01 --------------------------------
(* Alphabets for the session model.                                         *)
EXTENDS MC_Session
L(op, ks) == [op |-> op, ks |-> ks, fail |-> "no", m |-> "", on |-> TRUE]
F(ks) == [op |-> "file", ks |-> ks, fail |-> "src", m |-> "", on |-> TRUE]
S(ks) == [op |-> "solid", ks |-> ks, fail |-> "src", m |-> "", on |-> TRUE]
M(m) == [op |-> "setm", ks |-> <<>>, fail |-> "no", m |-> m, on |-> TRUE]

Single == {L("file", <<"data">>), L("file", <<"empty">>), L("file", <<"none">>), L("file", <<"dir">>),
           L("file", <<"dirdata">>), L("file", <<"anti">>)}
Solids == {L("solid", <<>>), L("solid", <<"data">>), L("solid", <<"data", "data">>),
           L("solid", <<"data", "dir", "data">>), L("solid", <<"empty", "data">>), L("solid", <<"empty">>),
           L("solid", <<"dir">>), L("solid", <<"data", "empty">>)}
Plain == Single \cup Solids \cup {M("b")}
Failing == {L("file", <<"data">>), L("file", <<"none">>), L("solid", <<"data", "data">>), L("file", <<"empty">>),
            F(<<"data">>), F(<<"empty">>), F(<<"none">>), S(<<"data", "data">>), S(<<"dir", "data">>), S(<<"empty">>),
            L("solid", <<"dirdata", "data">>), M("bad"), M("a")}
Z(k) == IF k \in {"data", "dirdata"} THEN 7 ELSE 0
=============================================================================
