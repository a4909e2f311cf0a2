----------------------------- MODULE MC_ForeignQ -----------------------------
EXTENDS MC_Foreign
AllBodies == 1..200
NoOpts == <<>>
\* the choices in groups small enough to enumerate
OptsA == <<"wide", "bits", "nums", "subs", "zeros", "scrc", "fcrc">>
OptsB == <<"bits", "zeros", "order", "dummy", "mt">>
OptsC == <<"pcrc", "fcrc", "scrc", "subs", "nums">>
Few == 1..2
One == {1}
Two == {1, 2, 3}
=============================================================================
