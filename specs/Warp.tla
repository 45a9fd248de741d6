--------------------------------- MODULE Warp ---------------------------------
(* Resampling images through planar maps.  An image is [w, h, p] with p its     *)
(* rows one after the other; positions are in quarters of a pixel, so that the  *)
(* bilinear value is an exact multiple of a sixteenth.                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES src, out      \* an image, and its last warped version
wvars == <<src, out>>
Black == 0  White == 1  Noise == 2  Repeat == 3  Mirror == 4
Any == -1               \* a pixel that may hold anything
Img(w, h, f(_, _)) == [w |-> w, h |-> h, p |-> [k \in 1..(w * h) |-> f((k - 1) % w, (k - 1) \div w)]]
At(g, x, y) == g.p[(y * g.w) + x + 1]
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
Fold(i, n) == IF n = 1 THEN 0 ELSE LET p == 2 * (n - 1) r == i % p IN IF r < n THEN r ELSE p - r
\* sixteen times the bilinear mixture at fraction (u, v) (quarters) of four pixels
Mix(a, b, c, d, u, v) == ((4 - v) * (((4 - u) * a) + (u * b))) + (v * (((4 - u) * c) + (u * d)))
Look(g, f(_, _), X, Y) ==
    LET i == X \div 4  j == Y \div 4
    IN Mix(At(g, f(i, g.w), f(j, g.h)), At(g, f(i + 1, g.w), f(j, g.h)),
           At(g, f(i, g.w), f(j + 1, g.h)), At(g, f(i + 1, g.w), f(j + 1, g.h)), X % 4, Y % 4) \div 16
\* a position is inside when all four neighbours are pixels of the image
Inside(g, X, Y) == LET i == X \div 4 j == Y \div 4 IN i >= 0 /\ i < g.w - 1 /\ j >= 0 /\ j < g.h - 1
Pixel(g, mode, X, Y) ==
    CASE mode = Repeat -> Look(g, Clamp, X, Y)
      [] mode = Mirror -> Look(g, Fold, X, Y)
      [] OTHER -> IF Inside(g, X, Y) THEN Look(g, Clamp, X, Y)
                  ELSE IF mode = White THEN 255 ELSE IF mode = Noise THEN Any ELSE 0
\* t: where destination pixels come from, column by column (the third row is 0 0 1), in quarters
Warped(g, w, h, t, mode) == Img(w, h, LAMBDA x, y : Pixel(g, mode, (x * t[1]) + (y * t[3]) + t[5], (x * t[2]) + (y * t[4]) + t[6]))
WarpInit(g) == src = g /\ out = g
DoWarp(w, h, t, mode) == out' = Warped(src, w, h, t, mode) /\ UNCHANGED src
\* ---- transforms.  An angle is <<c, s, d>>: cosine c / d, sine s / d.
Rot(a) == <<a[1], a[2], -a[2], a[1]>>                       \* columns, times d
Mul2(m, n) == <<(m[1] * n[1]) + (m[3] * n[2]), (m[2] * n[1]) + (m[4] * n[2]), (m[1] * n[3]) + (m[3] * n[4]), (m[2] * n[3]) + (m[4] * n[4])>>
Diag(a, b) == <<a, 0, 0, b>>
App(m, p) == <<(m[1] * p[1]) + (m[3] * p[2]), (m[2] * p[1]) + (m[4] * p[2])>>
Neg(a) == <<a[1], -a[2], a[3]>>
\* post + lambda R(psi) diag(q, 1) R(phi) (pre + x): the linear part times the two denominators
AffineLin(lam, psi, q, phi) == LET m == Mul2(Rot(psi), Mul2(Diag(q, 1), Rot(phi))) IN [i \in 1..4 |-> lam * m[i]]
AffineDen(psi, phi) == psi[3] * phi[3]
\* ---- properties
Constant(g) == \A i \in 1..Len(g.p) : g.p[i] = g.p[1]
KeepsConstant == Constant(src) => \A X, Y \in {-9, -4, -1, 0, 3, 8, 14} : Pixel(src, Repeat, X, Y) = src.p[1] /\ Pixel(src, Mirror, X, Y) = src.p[1]
Exact == \A x \in 0..(src.w - 1), y \in 0..(src.h - 1) : \A m \in {Repeat, Mirror} : Pixel(src, m, 4 * x, 4 * y) = At(src, x, y)
Periodic == \A X, Y \in {-7, -2, 0, 5, 9} : Pixel(src, Mirror, X, Y) = Pixel(src, Mirror, X + (8 * (src.w - 1)), Y)
Agree == \A m \in 0..4 : \A X, Y \in -3..9 : Inside(src, X, Y) => Pixel(src, m, X, Y) = Pixel(src, Mirror, X, Y)
Range == \A i \in 1..Len(out.p) : out.p[i] \in (-1)..255
===============================================================================
