-------------------------------- MODULE Words --------------------------------
(* Machine words as sequences of 16-bit pieces, most significant first.        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise
M16 == 65536
Pow2(n) == 2 ^ n
ZipW(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
XorW(a, b) == ZipW(LAMBDA x, y : x ^^ y, a, b)
AndW(a, b) == ZipW(LAMBDA x, y : x & y, a, b)
NotW(a) == [i \in 1..Len(a) |-> 65535 - a[i]]

Bit(w, k) == \* bit k (0 = least significant) of word w
    LET p == Len(w) - (k \div 16) IN (w[p] \div Pow2(k % 16)) % 2
BitCount(w) == LET n == 16 * Len(w)
               IN FoldLeft(LAMBDA acc, k : acc + Bit(w, k - 1), 0, [k \in 1..n |-> k])
\* whole-piece rotation, then a rotation by less than 16
RotPieces(w, q) == [i \in 1..Len(w) |-> w[((i - 1 - q + 2 * Len(w)) % Len(w)) + 1]]
Rotr(w, n) == LET v == RotPieces(w, n \div 16)
                  s == n % 16
                  d == Pow2(s)
              IN IF s = 0 THEN v
                 ELSE [i \in 1..Len(v) |->
                        (v[i] \div d) + (v[IF i = 1 THEN Len(v) ELSE i - 1] % d) * Pow2(16 - s)]
Shr(w, n) == LET s == n % 16
                 d == Pow2(s)
                 q == n \div 16
                 v == [i \in 1..Len(w) |-> IF i > q THEN w[i - q] ELSE 0]
             IN [i \in 1..Len(v) |-> (v[i] \div d) + (IF i = 1 THEN 0 ELSE (v[i - 1] % d) * Pow2(16 - s))]
\* 32-bit addition
Add2(a, b) == LET lo == a[2] + b[2]
                  hi == a[1] + b[1] + (lo \div M16)
              IN <<hi % M16, lo % M16>>
BytesOf(w) == [k \in 1..(2 * Len(w)) |->
                 IF k % 2 = 1 THEN w[(k + 1) \div 2] \div 256 ELSE w[k \div 2] % 256]
WordOf(bs) == [i \in 1..(Len(bs) \div 2) |-> bs[2 * i - 1] * 256 + bs[2 * i]]
===============================================================================
