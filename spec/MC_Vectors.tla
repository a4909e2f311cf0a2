----------------------------- MODULE MC_Vectors ------------------------------
(* Published test vectors, and properties of the building blocks, of Crypto. *)
EXTENDS Crypto
VARIABLE k
Abc == <<97, 98, 99>>
Long == [i \in 1..120 |-> (i * 7) % 256]
ShaAbc == <<186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173>>
ShaNil == <<227,176,196,66,152,252,28,20,154,251,244,200,153,111,185,36,39,174,65,228,100,155,147,76,164,149,153,27,120,82,184,85>>
\* FIPS 197, C.3
Key32 == [i \in 1..32 |-> i - 1]
Cipher == <<142,162,183,202,81,103,69,191,234,252,73,144,75,73,96,137>>
Text == [i \in 1..16 |-> (i - 1) * 17]
Init == k = 0
Next == k < 255 /\ k' = k + 1
Spec == Init /\ [][Next]_k
Sha == k = 0 => Sha256(Abc) = ShaAbc /\ Sha256(<<>>) = ShaNil
Aes == k = 0 => Decipher(Expand(Key32), Cipher) = Text
Bijective == ISBox[SBox[k + 1] + 1] = k
Tables == LET iv == IF k = 0 THEN 0 ELSE CHOOSE b \in 1..255 : Gf(k, b) = 1
          IN /\ SBoxIs(k, SBox[k + 1], iv)
             /\ M9[k + 1] = Gf(k, 9) /\ M11[k + 1] = Gf(k, 11) /\ M13[k + 1] = Gf(k, 13) /\ M14[k + 1] = Gf(k, 14)
Padding == Len(Padded([i \in 1..k |-> 0])) % 64 = 0
=============================================================================
