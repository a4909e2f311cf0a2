------------------------------- MODULE MC_Crypt --------------------------------
(***************************************************************************)
(* Encrypted archives and a sequence of attempts to read them.              *)
(*                                                                         *)
(* A password is known here by its length in UTF-16 units and by what was   *)
(* done to it to get the password of an attempt; a key is the digest of     *)
(* salt, password and counts (taken to have no collisions), or, at power    *)
(* 63, the first 32 bytes of salt and password, filled up with zeros.       *)
(*  conf: who makes the archive, power, sizes of salt and vector, chain of  *)
(*        coders, length of the password, container of the header           *)
(*  tries: attempts so far with what they have to yield                     *)
(*  got: entries delivered complete so far                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Makers, Powers, Salts, Vectors, Chains, Lengths, Headers, MaxTries, Changes, Emit, Lazy

VARIABLES conf, tries, got
vars == <<conf, tries, got>>

Confs == [maker : Makers, power : Powers, salt : Salts, iv : Vectors, chain : Chains, len : Lengths, hdr : Headers]
\* the writer stores salt and vector in full and takes no power but these
Sense(f) == f.maker = "writer" => f.salt = 16 /\ f.iv = 16 /\ f.power <= 9 /\ f.chain \in {"aes", "lzma2 aes", "lzma aes"} /\ f.hdr # "encoded"
\* attempts: no password, the password, one unit changed, the last unit left out, units added
Marks == {"first", "middle", "last"}
Attempts(f) == (({"none", "same", "zero", "added"} \cup (IF f.len > 1 THEN {"dropped"} ELSE {})) \X {"-"}) \cup (Changes \X Marks)
Place(f, m) == IF m = "first" THEN 1 ELSE IF m = "last" THEN f.len ELSE (f.len + 1) \div 2
\* the first byte of unit k behind the salt, counted from 0
From(f, k) == f.salt + 2 * (k - 1)
SameKey(f, a) ==
  CASE a[1] = "none" -> FALSE
    [] a[1] = "same" -> TRUE
    [] a[1] = "zero" -> f.power = 63
    [] a[1] = "added" -> f.power = 63 /\ From(f, f.len + 1) >= 32
    [] a[1] = "dropped" -> f.power = 63 /\ From(f, f.len) >= 32
    \* only the low byte of the unit differs, only the high one, or both
    [] a[1] = "low" -> f.power = 63 /\ From(f, Place(f, a[2])) >= 32
    [] a[1] = "high" -> f.power = 63 /\ From(f, Place(f, a[2])) + 1 >= 32
    [] OTHER -> f.power = 63 /\ From(f, Place(f, a[2])) >= 32

Init == conf \in {f \in Confs : Sense(f)} /\ tries = <<>> /\ got = 0
Try == /\ Len(tries) < MaxTries /\ got >= 0
       /\ \E a \in Attempts(conf) : tries' = Append(tries, [a |-> a, ok |-> SameKey(conf, a)])
       /\ got' = got + (IF tries'[Len(tries')].ok THEN 1 ELSE 0)
       /\ UNCHANGED conf
Done == /\ got >= 0 /\ tries # <<>> /\ (Lazy => Len(tries) = MaxTries)
        /\ (Emit => PrintT("SC " \o ToJson([f |-> conf, tries |-> tries])))
        /\ got' = -1 /\ UNCHANGED <<conf, tries>>
Next == Try \/ Done
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* content comes out only under a password that makes the key, and without any password not at all
Honest == got >= 0 => got <= Len(SelectSeq(tries, LAMBDA t : t.a[1] # "none" /\ (conf.power # 63 => t.a[1] = "same")))
\* attempts do not depend on the ones before
Independent == \A i, j \in 1..Len(tries) : tries[i].a = tries[j].a => tries[i].ok = tries[j].ok
=============================================================================
