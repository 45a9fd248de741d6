---------------------------------- MODULE Sfmt ----------------------------------
(* The SFMT19937 generator behind nx_uniform_sampler, defined on 16-bit pieces. *)
(* A 32-bit word is <<high, low>>; a lane group is four words, least first.     *)
EXTENDS Words, TLC
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
\* a * 0x6C078965 + i, modulo 2^32
KH == 27655
KL == 35173
MulK(a) == LET t == KL * (a[2] \div 256)
               u == (KL * (a[2] % 256)) + (256 * (t % 256))
               carry == (u \div M16) + (t \div 256)
               m == ((KL * (a[1] % 256)) + ((KL * (a[1] \div 256)) % 256) * 256) % M16
           IN <<(carry + ((KH * a[2]) % M16) + m) % M16, u % M16>>
Seeded(seed) ==   \* 624 words
    FoldLeft(LAMBDA acc, i : LET p == acc[i]
                             IN Append(acc, Add2(MulK(Xor2(p, <<0, p[1] \div 16384>>)), <<0, i>>)),
             <<seed>>, [i \in 1..623 |-> i])
\* the period certification flips one bit when the parity is even
Parity(p) == LET w == Xor2(And2(p[1], <<0, 1>>), And2(p[4], <<5065, 59012>>))    \* 0x13c9e684
             IN (BitCount(w) % 2)
Certified(p) == IF Parity(p) = 1 THEN p ELSE [p EXCEPT ![1] = Xor2(@, <<0, 1>>)]
Groups(p) == [k \in 1..156 |-> <<p[4 * k - 3], p[4 * k - 2], p[4 * k - 1], p[4 * k]>>]
InitWin(seed) == Groups(Certified(Seeded(seed)))
Shl32(w, n) == LET d == Pow2(n % 16)
                   v == IF n >= 16 THEN <<w[2], 0>> ELSE w
                   lo == v[2]
               IN <<((v[1] * d) % M16) + (lo \div Pow2(16 - (n % 16))), (lo % Pow2(16 - (n % 16))) * d>>
Shr32(w, n) == <<w[1] \div Pow2(n), (w[2] \div Pow2(n)) + ((w[1] % Pow2(n)) * Pow2(16 - n))>>   \* n < 16
\* the whole group as eight pieces, most significant first
Pieces(g) == <<g[4][1], g[4][2], g[3][1], g[3][2], g[2][1], g[2][2], g[1][1], g[1][2]>>
Lanes(p) == <<<<p[7], p[8]>>, <<p[5], p[6]>>, <<p[3], p[4]>>, <<p[1], p[2]>>>>
Shl8(g) == LET p == Pieces(g) IN Lanes([i \in 1..8 |-> ((p[i] % 256) * 256) + (IF i = 8 THEN 0 ELSE p[i + 1] \div 256)])
Shr8(g) == LET p == Pieces(g) IN Lanes([i \in 1..8 |-> (p[i] \div 256) + (IF i = 1 THEN 0 ELSE (p[i - 1] % 256) * 256)])
Msk == <<<<57343, 65519>>, <<56830, 52095>>, <<49146, 65535>>, <<49151, 65526>>>>
Recur(a, b, c, d) == LET x == Shl8(a)  y == Shr8(c)
                     IN [k \in 1..4 |-> Xor2(Xor2(Xor2(a[k], x[k]), Xor2(And2(Shr32(b[k], 11), Msk[k]), y[k])), Shl32(d[k], 18))]
\* the next 156 groups of the stream
Gen(win) == FoldLeft(LAMBDA w, i : [w EXCEPT ![i] = Recur(w[i], w[((i + 121) % 156) + 1], w[((i + 153) % 156) + 1], w[((i + 154) % 156) + 1])],
                     win, [i \in 1..156 |-> i])
\* a generator: the current 624 words and how many of them were used
Fresh(seed) == [win |-> InitWin(seed), idx |-> 624]
WordAt(g, j) == g.win[(j \div 4) + 1][(j % 4) + 1]     \* j from 0
Ready(g) == IF g.idx >= 624 THEN [win |-> TLCEval(Gen(g.win)), idx |-> 0] ELSE g
\* the next n words and the generator after them
RECURSIVE Take(_, _, _)
Take(g, n, acc) == IF n = 0 THEN <<acc, g>>
                   ELSE LET r == Ready(g)
                            m == IF n < 624 - r.idx THEN n ELSE 624 - r.idx
                        IN Take([r EXCEPT !.idx = @ + m], n - m, acc \o [k \in 1..m |-> WordAt(r, r.idx + k - 1)])
Draw(g, n) == Take(g, n, <<>>)
===============================================================================
