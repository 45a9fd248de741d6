-------------------------------- MODULE Sha256 --------------------------------
(* FIPS 180-4 SHA-256 on byte sequences, and the hashing service: the digest   *)
(* of a list of buffers is the digest of their concatenation.                  *)
EXTENDS Words
K == <<
 <<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,
 <<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,<<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,
 <<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,
 <<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,
 <<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,<<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,
 <<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,
 <<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,
 <<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,<<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>> >>
H0 == << <<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,<<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>> >>

Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == XorW(XorW(AndW(x, y), AndW(x, z)), AndW(y, z))
S0(x) == XorW(XorW(Rotr(x, 2), Rotr(x, 13)), Rotr(x, 22))
S1(x) == XorW(XorW(Rotr(x, 6), Rotr(x, 11)), Rotr(x, 25))
s0(x) == XorW(XorW(Rotr(x, 7), Rotr(x, 18)), Shr(x, 3))
s1(x) == XorW(XorW(Rotr(x, 17), Rotr(x, 19)), Shr(x, 10))

Schedule(block) ==
    FoldLeft(LAMBDA w, t : Append(w, Add2(Add2(s1(w[t - 2]), w[t - 7]), Add2(s0(w[t - 15]), w[t - 16]))),
             [i \in 1..16 |-> WordOf(SubSeq(block, 4 * i - 3, 4 * i))],
             [t \in 1..48 |-> t + 16])
Round(v, kw) ==
    LET t1 == Add2(Add2(Add2(v[8], S1(v[5])), Ch(v[5], v[6], v[7])), kw)
        t2 == Add2(S0(v[1]), Maj(v[1], v[2], v[3]))
    IN <<Add2(t1, t2), v[1], v[2], v[3], Add2(v[4], t1), v[5], v[6], v[7]>>
Compress(h, block) ==
    LET w == Schedule(block)
        v == FoldLeft(LAMBDA acc, t : Round(acc, Add2(K[t], w[t])), h, [t \in 1..64 |-> t])
    IN [i \in 1..8 |-> Add2(h[i], v[i])]

\* padding: one bit 1, zeros, the length in bits as a 64-bit number
LenBytes(n) == <<0, 0, 0, 0, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n % 32) * 8>>
Padded(m) == LET z == (119 - (Len(m) % 64)) % 64
             IN m \o <<128>> \o [i \in 1..z |-> 0] \o LenBytes(Len(m))
Digest(m) == LET p == Padded(m)
                 h == FoldLeft(LAMBDA acc, b : Compress(acc, SubSeq(p, 64 * b - 63, 64 * b)),
                               H0, [b \in 1..(Len(p) \div 64) |-> b])
             IN FlattenSeq([i \in 1..8 |-> BytesOf(h[i])])
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(bs) == FlattenSeq([i \in 1..Len(bs) |-> <<HexDigit(bs[i] \div 16), HexDigit(bs[i] % 16)>>])
===============================================================================
