------------------------------- MODULE Crypto --------------------------------
(***************************************************************************)
(* SHA-256, AES-256 in CBC mode (decryption), and how 7z derives a key from  *)
(* a password.  32-bit words are pairs <<low half, high half>>.             *)
(***************************************************************************)
EXTENDS Bytes, TLC

----------------------------------------------------------------------------
(* SHA-256 *)
K256 == <<
  <<12184, 17034>>, <<17553, 28983>>, <<64463, 46528>>, <<56229, 59829>>, <<49755, 14678>>, <<4593, 23025>>,
  <<33444, 37439>>, <<24277, 43804>>, <<43672, 55303>>, <<23297, 4739>>, <<34238, 9265>>, <<32195, 21772>>,
  <<23924, 29374>>, <<45566, 32990>>, <<1703, 39900>>, <<61812, 49563>>, <<27073, 58523>>, <<18310, 61374>>,
  <<40390, 4033>>, <<41420, 9228>>, <<11375, 11753>>, <<33962, 19060>>, <<43484, 23728>>, <<35034, 30457>>,
  <<20818, 38974>>, <<50797, 43057>>, <<10184, 45059>>, <<32711, 48985>>, <<3059, 50912>>, <<37191, 54695>>,
  <<25425, 1738>>, <<10599, 5161>>, <<2693, 10167>>, <<8504, 11803>>, <<28156, 19756>>, <<3347, 21304>>,
  <<29524, 25866>>, <<2747, 30314>>, <<51502, 33218>>, <<11397, 37490>>, <<59553, 41663>>, <<26187, 43034>>,
  <<35696, 49739>>, <<20899, 51052>>, <<59417, 53650>>, <<1572, 54937>>, <<13701, 62478>>, <<41072, 4202>>,
  <<49430, 6564>>, <<27656, 7735>>, <<30540, 10056>>, <<48309, 13488>>, <<3251, 14620>>, <<43594, 20184>>,
  <<51791, 23452>>, <<28659, 26670>>, <<33518, 29839>>, <<25455, 30885>>, <<30740, 33992>>, <<520, 36039>>,
  <<65530, 37054>>, <<27883, 42064>>, <<41975, 48889>>, <<30962, 50801>> >>
H256 == <<
  <<58983, 27145>>, <<44677, 47975>>, <<62322, 15470>>, <<62778, 42319>>, <<21119, 20750>>, <<26764, 39685>>,
  <<55723, 8067>>, <<52505, 23520>> >>
Not32(a) == <<65535 - a[1], 65535 - a[2]>>
X3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2]>>
BSig0(x) == X3(Ror32(x, 2), Ror32(x, 13), Ror32(x, 22))
BSig1(x) == X3(Ror32(x, 6), Ror32(x, 11), Ror32(x, 25))
SSig0(x) == X3(Ror32(x, 7), Ror32(x, 18), Shr32(x, 3))
SSig1(x) == X3(Ror32(x, 17), Ror32(x, 19), Shr32(x, 10))
Ch(x, y, z) == Xor32(And32(x, y), And32(Not32(x), z))
Maj(x, y, z) == X3(And32(x, y), And32(x, z), And32(y, z))
S16 == [i \in 1..48 |-> i + 16]
S64 == [i \in 1..64 |-> i]
Schedule(m) == FoldLeft(LAMBDA w, t : Append(w, Add32(Add32(SSig1(w[t - 2]), w[t - 7]), Add32(SSig0(w[t - 15]), w[t - 16]))), m, S16)
Compress(h, m) ==
  LET w == Schedule(m)
      r == FoldLeft(LAMBDA v, t :
             LET t1 == Add32(Add32(v[8], BSig1(v[5])), Add32(Add32(Ch(v[5], v[6], v[7]), K256[t]), w[t]))
                 t2 == Add32(BSig0(v[1]), Maj(v[1], v[2], v[3]))
             IN <<Add32(t1, t2), v[1], v[2], v[3], Add32(v[4], t1), v[5], v[6], v[7]>>, h, S64)
  IN TLCEval([i \in 1..8 |-> Add32(h[i], r[i])])
\* message bytes, padded: 0x80, zeros, the length in bits (of a message below 2^28 bytes)
Padded(b) ==
  LET n == Len(b)
      z == (55 - n) % 64
  IN b \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0>> \o BE32Bytes(<<(n * 8) % 65536, (n * 8) \div 65536>>)
Sha256(b) ==
  LET p == TLCEval(Padded(b))
      h == FoldLeft(LAMBDA a, k : Compress(a, TLCEval([i \in 1..16 |-> BE32(p, (k - 1) * 64 + 4 * i - 3)])), H256, [k \in 1..(Len(p) \div 64) |-> k])
  IN FlattenSeq([i \in 1..8 |-> BE32Bytes(h[i])])

----------------------------------------------------------------------------
(* The field GF(2^8) of AES, its S-box and their inverses *)
Xtime(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27
S8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Gf(a, b) == FoldLeft(LAMBDA x, i : [x EXCEPT !.v = IF (b \div P2[i - 1]) % 2 = 1 THEN @ ^^ x.a ELSE @, !.a = Xtime(@)], [a |-> a, v |-> 0], S8).v
Rotl8(a, k) == ((a * P2[k]) % 256) + ((a * P2[k]) \div 256)
\* as tables, of a byte b at b + 1; MC_Vectors checks them against this definition:
SBoxIs(a, b, inverse) == b = (((inverse ^^ Rotl8(inverse, 1)) ^^ Rotl8(inverse, 2)) ^^ Rotl8(inverse, 3)) ^^ (Rotl8(inverse, 4) ^^ 99)
SBox == <<
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240,
  173, 212, 162, 175, 156, 164, 114, 192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
  4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117, 9, 131, 44, 26, 27, 110, 90, 160,
  82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
  208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245,
  188, 182, 218, 33, 16, 255, 243, 210, 205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
  96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10, 73, 6, 36, 92,
  194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
  186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14,
  97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
  140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>
ISBox == <<
  82, 9, 106, 213, 48, 54, 165, 56, 191, 64, 163, 158, 129, 243, 215, 251, 124, 227, 57, 130, 155, 47, 255, 135,
  52, 142, 67, 68, 196, 222, 233, 203, 84, 123, 148, 50, 166, 194, 35, 61, 238, 76, 149, 11, 66, 250, 195, 78,
  8, 46, 161, 102, 40, 217, 36, 178, 118, 91, 162, 73, 109, 139, 209, 37, 114, 248, 246, 100, 134, 104, 152, 22,
  212, 164, 92, 204, 93, 101, 182, 146, 108, 112, 72, 80, 253, 237, 185, 218, 94, 21, 70, 87, 167, 141, 157, 132,
  144, 216, 171, 0, 140, 188, 211, 10, 247, 228, 88, 5, 184, 179, 69, 6, 208, 44, 30, 143, 202, 63, 15, 2,
  193, 175, 189, 3, 1, 19, 138, 107, 58, 145, 17, 65, 79, 103, 220, 234, 151, 242, 207, 206, 240, 180, 230, 115,
  150, 172, 116, 34, 231, 173, 53, 133, 226, 249, 55, 232, 28, 117, 223, 110, 71, 241, 26, 113, 29, 41, 197, 137,
  111, 183, 98, 14, 170, 24, 190, 27, 252, 86, 62, 75, 198, 210, 121, 32, 154, 219, 192, 254, 120, 205, 90, 244,
  31, 221, 168, 51, 136, 7, 199, 49, 177, 18, 16, 89, 39, 128, 236, 95, 96, 81, 127, 169, 25, 181, 74, 13,
  45, 229, 122, 159, 147, 201, 156, 239, 160, 224, 59, 77, 174, 42, 245, 176, 200, 235, 187, 60, 131, 83, 153, 97,
  23, 43, 4, 126, 186, 119, 214, 38, 225, 105, 20, 99, 85, 33, 12, 125 >>
M9 == <<
  0, 9, 18, 27, 36, 45, 54, 63, 72, 65, 90, 83, 108, 101, 126, 119, 144, 153, 130, 139, 180, 189, 166, 175,
  216, 209, 202, 195, 252, 245, 238, 231, 59, 50, 41, 32, 31, 22, 13, 4, 115, 122, 97, 104, 87, 94, 69, 76,
  171, 162, 185, 176, 143, 134, 157, 148, 227, 234, 241, 248, 199, 206, 213, 220, 118, 127, 100, 109, 82, 91, 64, 73,
  62, 55, 44, 37, 26, 19, 8, 1, 230, 239, 244, 253, 194, 203, 208, 217, 174, 167, 188, 181, 138, 131, 152, 145,
  77, 68, 95, 86, 105, 96, 123, 114, 5, 12, 23, 30, 33, 40, 51, 58, 221, 212, 207, 198, 249, 240, 235, 226,
  149, 156, 135, 142, 177, 184, 163, 170, 236, 229, 254, 247, 200, 193, 218, 211, 164, 173, 182, 191, 128, 137, 146, 155,
  124, 117, 110, 103, 88, 81, 74, 67, 52, 61, 38, 47, 16, 25, 2, 11, 215, 222, 197, 204, 243, 250, 225, 232,
  159, 150, 141, 132, 187, 178, 169, 160, 71, 78, 85, 92, 99, 106, 113, 120, 15, 6, 29, 20, 43, 34, 57, 48,
  154, 147, 136, 129, 190, 183, 172, 165, 210, 219, 192, 201, 246, 255, 228, 237, 10, 3, 24, 17, 46, 39, 60, 53,
  66, 75, 80, 89, 102, 111, 116, 125, 161, 168, 179, 186, 133, 140, 151, 158, 233, 224, 251, 242, 205, 196, 223, 214,
  49, 56, 35, 42, 21, 28, 7, 14, 121, 112, 107, 98, 93, 84, 79, 70 >>
M11 == <<
  0, 11, 22, 29, 44, 39, 58, 49, 88, 83, 78, 69, 116, 127, 98, 105, 176, 187, 166, 173, 156, 151, 138, 129,
  232, 227, 254, 245, 196, 207, 210, 217, 123, 112, 109, 102, 87, 92, 65, 74, 35, 40, 53, 62, 15, 4, 25, 18,
  203, 192, 221, 214, 231, 236, 241, 250, 147, 152, 133, 142, 191, 180, 169, 162, 246, 253, 224, 235, 218, 209, 204, 199,
  174, 165, 184, 179, 130, 137, 148, 159, 70, 77, 80, 91, 106, 97, 124, 119, 30, 21, 8, 3, 50, 57, 36, 47,
  141, 134, 155, 144, 161, 170, 183, 188, 213, 222, 195, 200, 249, 242, 239, 228, 61, 54, 43, 32, 17, 26, 7, 12,
  101, 110, 115, 120, 73, 66, 95, 84, 247, 252, 225, 234, 219, 208, 205, 198, 175, 164, 185, 178, 131, 136, 149, 158,
  71, 76, 81, 90, 107, 96, 125, 118, 31, 20, 9, 2, 51, 56, 37, 46, 140, 135, 154, 145, 160, 171, 182, 189,
  212, 223, 194, 201, 248, 243, 238, 229, 60, 55, 42, 33, 16, 27, 6, 13, 100, 111, 114, 121, 72, 67, 94, 85,
  1, 10, 23, 28, 45, 38, 59, 48, 89, 82, 79, 68, 117, 126, 99, 104, 177, 186, 167, 172, 157, 150, 139, 128,
  233, 226, 255, 244, 197, 206, 211, 216, 122, 113, 108, 103, 86, 93, 64, 75, 34, 41, 52, 63, 14, 5, 24, 19,
  202, 193, 220, 215, 230, 237, 240, 251, 146, 153, 132, 143, 190, 181, 168, 163 >>
M13 == <<
  0, 13, 26, 23, 52, 57, 46, 35, 104, 101, 114, 127, 92, 81, 70, 75, 208, 221, 202, 199, 228, 233, 254, 243,
  184, 181, 162, 175, 140, 129, 150, 155, 187, 182, 161, 172, 143, 130, 149, 152, 211, 222, 201, 196, 231, 234, 253, 240,
  107, 102, 113, 124, 95, 82, 69, 72, 3, 14, 25, 20, 55, 58, 45, 32, 109, 96, 119, 122, 89, 84, 67, 78,
  5, 8, 31, 18, 49, 60, 43, 38, 189, 176, 167, 170, 137, 132, 147, 158, 213, 216, 207, 194, 225, 236, 251, 246,
  214, 219, 204, 193, 226, 239, 248, 245, 190, 179, 164, 169, 138, 135, 144, 157, 6, 11, 28, 17, 50, 63, 40, 37,
  110, 99, 116, 121, 90, 87, 64, 77, 218, 215, 192, 205, 238, 227, 244, 249, 178, 191, 168, 165, 134, 139, 156, 145,
  10, 7, 16, 29, 62, 51, 36, 41, 98, 111, 120, 117, 86, 91, 76, 65, 97, 108, 123, 118, 85, 88, 79, 66,
  9, 4, 19, 30, 61, 48, 39, 42, 177, 188, 171, 166, 133, 136, 159, 146, 217, 212, 195, 206, 237, 224, 247, 250,
  183, 186, 173, 160, 131, 142, 153, 148, 223, 210, 197, 200, 235, 230, 241, 252, 103, 106, 125, 112, 83, 94, 73, 68,
  15, 2, 21, 24, 59, 54, 33, 44, 12, 1, 22, 27, 56, 53, 34, 47, 100, 105, 126, 115, 80, 93, 74, 71,
  220, 209, 198, 203, 232, 229, 242, 255, 180, 185, 174, 163, 128, 141, 154, 151 >>
M14 == <<
  0, 14, 28, 18, 56, 54, 36, 42, 112, 126, 108, 98, 72, 70, 84, 90, 224, 238, 252, 242, 216, 214, 196, 202,
  144, 158, 140, 130, 168, 166, 180, 186, 219, 213, 199, 201, 227, 237, 255, 241, 171, 165, 183, 185, 147, 157, 143, 129,
  59, 53, 39, 41, 3, 13, 31, 17, 75, 69, 87, 89, 115, 125, 111, 97, 173, 163, 177, 191, 149, 155, 137, 135,
  221, 211, 193, 207, 229, 235, 249, 247, 77, 67, 81, 95, 117, 123, 105, 103, 61, 51, 33, 47, 5, 11, 25, 23,
  118, 120, 106, 100, 78, 64, 82, 92, 6, 8, 26, 20, 62, 48, 34, 44, 150, 152, 138, 132, 174, 160, 178, 188,
  230, 232, 250, 244, 222, 208, 194, 204, 65, 79, 93, 83, 121, 119, 101, 107, 49, 63, 45, 35, 9, 7, 21, 27,
  161, 175, 189, 179, 153, 151, 133, 139, 209, 223, 205, 195, 233, 231, 245, 251, 154, 148, 134, 136, 162, 172, 190, 176,
  234, 228, 246, 248, 210, 220, 206, 192, 122, 116, 102, 104, 66, 76, 94, 80, 10, 4, 22, 24, 50, 60, 46, 32,
  236, 226, 240, 254, 212, 218, 200, 198, 156, 146, 128, 142, 164, 170, 184, 182, 12, 2, 16, 30, 52, 58, 40, 38,
  124, 114, 96, 110, 68, 74, 88, 86, 55, 57, 43, 37, 15, 1, 19, 29, 71, 73, 91, 85, 127, 113, 99, 109,
  215, 217, 203, 197, 239, 225, 243, 253, 167, 169, 187, 181, 159, 145, 131, 141 >>

(* AES-256: 60 words of key schedule, 14 rounds *)
SubW(w) == TLCEval([i \in 1..4 |-> SBox[w[i] + 1]])
RotW(w) == <<w[2], w[3], w[4], w[1]>>
XorB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
Rcon == <<1, 2, 4, 8, 16, 32, 64>>
S52 == [i \in 1..52 |-> i + 8]
Expand(key) ==
  FoldLeft(LAMBDA w, i :
             LET t == w[i - 1]
                 u == IF (i - 1) % 8 = 0 THEN XorB(SubW(RotW(t)), <<Rcon[(i - 1) \div 8], 0, 0, 0>>)
                      ELSE IF (i - 1) % 8 = 4 THEN SubW(t) ELSE t
             IN Append(w, XorB(w[i - 8], u)),
           [i \in 1..8 |-> Sub(key, 4 * i - 3, 4)], S52)
RoundKey(w, r) == w[4 * r + 1] \o w[4 * r + 2] \o w[4 * r + 3] \o w[4 * r + 4]
\* byte i of the state is in row (i - 1) % 4, column (i - 1) \div 4
InvShift(s) == TLCEval([i \in 1..16 |-> s[((((i - 1) \div 4) - ((i - 1) % 4)) % 4) * 4 + ((i - 1) % 4) + 1]])
InvSub(s) == TLCEval([i \in 1..16 |-> ISBox[s[i] + 1]])
InvMix(s) ==
  TLCEval([i \in 1..16 |-> LET c == ((i - 1) \div 4) * 4
                       j == (i - 1) % 4
                       e(k) == s[(c + ((j + k) % 4)) + 1]
                   IN ((M14[1 + e(0)] ^^ M11[1 + e(1)]) ^^ M13[1 + e(2)]) ^^ M9[1 + e(3)]])
Rounds == <<13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>
Decipher(w, block) ==
  LET s == FoldLeft(LAMBDA a, r : InvMix(XorB(InvSub(InvShift(a)), RoundKey(w, r))), XorB(block, RoundKey(w, 14)), Rounds)
  IN XorB(InvSub(InvShift(s)), RoundKey(w, 0))
\* CBC over whole blocks
CbcDec(key, iv, data) ==
  LET w == Expand(key)
      n == Len(data) \div 16
      B(k) == IF k = 0 THEN iv ELSE Sub(data, 16 * k - 15, 16)
  IN FlattenSeq([k \in 1..n |-> XorB(Decipher(w, B(k)), B(k - 1))])

----------------------------------------------------------------------------
(* 7z: properties <<power and flags, sizes, salt, vector>>; the password in UTF-16LE *)
PwBytes(u) == FlattenSeq([i \in 1..Len(u) |-> <<u[i] % 256, u[i] \div 256>>])
AesProps(p) ==
  LET b0 == p[1]
      b1 == IF Len(p) >= 2 THEN p[2] ELSE 0
      s == (b0 \div 128) + (b1 \div 16)
      v == ((b0 \div 64) % 2) + (b1 % 16)
  IN [power |-> b0 % 64, salt |-> Sub(p, 3, s), iv |-> Sub(p, 3 + s, v) \o [i \in 1..(16 - v) |-> 0]]
\* the message of the key derivation: salt, password, counter, for each of 2^power counts
KeyText(salt, pw, power) ==
  LET one == salt \o pw
      n == Len(one) + 8
  IN TLCEval([i \in 1..(n * P2[power]) |->
        LET k == (i - 1) \div n
            j == ((i - 1) % n) + 1
        IN IF j <= Len(one) THEN one[j]
           ELSE IF j - Len(one) <= 3 THEN (k \div P2[8 * (j - Len(one) - 1)]) % 256 ELSE 0])
Direct32(salt, pw) == LET b == salt \o pw IN TLCEval([i \in 1..32 |-> IF i <= Len(b) THEN b[i] ELSE 0])
KeyOf(a, pw) == IF a.power = 63 THEN Direct32(a.salt, pw) ELSE Sha256(KeyText(a.salt, pw, a.power))
\* two passwords make the same key: the hash is taken to have no collisions
SameKey(a, p, q) == IF a.power = 63 THEN Direct32(a.salt, p) = Direct32(a.salt, q) ELSE p = q
Plain(props, u, data) == LET a == AesProps(props) IN CbcDec(KeyOf(a, PwBytes(u)), a.iv, data)
=============================================================================
