-------------------------------- MODULE Tree ---------------------------------
(***************************************************************************)
(* Directory trees: what extracting entries makes below a destination, and  *)
(* what of a tree a compression stores.  Names are sequences of bytes       *)
(* (UTF-8), paths are sequences of components.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Slash == 47  Dot == 46  Backslash == 92
\* the components of a name between its slashes, the empty ones too
Parts(n) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = Slash THEN [done |-> Append(a.done, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(a.cur, x)],
                    [done |-> <<>>, cur |-> <<>>], n)
  IN Append(r.done, r.cur)
Up == <<Dot, Dot>>
Here == {<<>>, <<Dot>>}
Absolute(n) == n # <<>> /\ n[1] = Slash
Steps(n) == SelectSeq(Parts(n), LAMBDA c : c \notin Here)
\* walking along: the place reached, and whether the way led above where it started
Walk(cs) == FoldLeft(LAMBDA a, c : IF c # Up THEN [a EXCEPT !.at = Append(a.at, c)]
                                   ELSE IF a.at = <<>> THEN [a EXCEPT !.out = TRUE]
                                   ELSE [a EXCEPT !.at = SubSeq(a.at, 1, Len(a.at) - 1)],
                     [at |-> <<>>, out |-> FALSE], cs)
LeadsOut(n) == Absolute(n) \/ Walk(Steps(n)).out
Place(n) == Walk(Steps(n)).at
\* names that a reader may refuse although they stay inside
Odd(n, dir) == \/ \E i \in 1..Len(n) : n[i] \in {0, Backslash}
               \/ \E i \in 1..Len(Parts(n)) : Parts(n)[i] = Up
               \/ LET c == SelectSeq(Parts(n), LAMBDA x : x # <<>>) IN c # <<>> /\ c[Len(c)] = <<Dot>>
               \/ ~dir /\ (n = <<>> \/ n[Len(n)] = Slash \/ Steps(n) = <<>>)

Prefs(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}
Above(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}
Dirs(fs) == {x.p : x \in {y \in fs : y.k = "dir"}}
FilesAt(fs) == {x.p : x \in {y \in fs : y.k = "file"}}
MkDirs(fs, ps) == fs \cup {[p |-> q, k |-> "dir", c |-> 0] : q \in {z \in ps : z \notin Dirs(fs)}}
\* one entry, with content number c: the new tree, and whether it could be made
Put(fs, p, dir, c) ==
  IF dir THEN IF Prefs(p) \cap FilesAt(fs) # {} THEN [fs |-> fs, ok |-> FALSE] ELSE [fs |-> MkDirs(fs, Prefs(p)), ok |-> TRUE]
  ELSE IF p = <<>> \/ Above(p) \cap FilesAt(fs) # {} \/ p \in Dirs(fs) THEN [fs |-> fs, ok |-> FALSE]
  ELSE [fs |-> {x \in MkDirs(fs, Above(p)) : x.p # p} \cup {[p |-> p, k |-> "file", c |-> c]}, ok |-> TRUE]
----------------------------------------------------------------------------
(* What a compression stores: t is a set of [p, k]; rejected: the paths the  *)
(* filter refuses (<<>> is the root itself)                                 *)
Passes(p, rejected) == p \notin rejected /\ <<>> \notin rejected /\ Above(p) \cap rejected = {}
Stored(t, rejected, whole) == {x \in t : (x.k = "file" \/ (whole /\ x.k = "dir")) /\ Passes(x.p, rejected)}
=============================================================================
