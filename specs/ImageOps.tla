------------------------------ MODULE ImageOps ------------------------------
(* The per-pixel definitions of the image operations, over images given as   *)
(* records with w, h, type, dt and px (row-major channels, see Image).        *)
(* Float channels are in units of 1/F.  "OK" operators say which results are  *)
(* acceptable: exactly the defined value where it is representable, otherwise *)
(* within the rounding a floating-point evaluation can cause.                 *)
EXTENDS Naturals, Integers, Sequences
CONSTANT UNK
F == 65536

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Clamp(v, lo, hi) == Max(lo, Min(v, hi))
NCh(t) == IF t = 0 THEN 1 ELSE 4
At(x, i, j, c) == (j * x.w + i) * NCh(x.type) + c + 1
G(x, i, j) == x.px[j * x.w + i + 1]           \* gray pixel (i, j)

(* byte result of num/den, truncated: when the quotient is an integer a        *)
(* floating-point evaluation may land just below it                            *)
TruncOK(v, num, den) ==
    LET q == IF num <= 0 THEN 0 ELSE num \div den
    IN \/ v = Min(q, 255)
       \/ num > 0 /\ num % den = 0 /\ q - 1 <= 255 /\ v = Max(q - 1, 0)
TruncExact(v, num, den) == v = IF num <= 0 THEN 0 ELSE Min(num \div den, 255)
(* float result of num/den units, t units of slack *)
NearOK(v, num, den, t) == Abs(v * den - num) <= t * den + den

AllOK(n, res, P(_)) == Len(res) = n /\ \A i \in 1..n : P(i)

GrayToRgbaOK(px, res, dt) ==
    AllOK(4 * Len(px), res, LAMBDA i :
        IF i % 4 = 0 THEN res[i] = (IF dt = 0 THEN 255 ELSE F)
        ELSE px[(i - 1) \div 4 + 1] = UNK \/ res[i] = px[(i - 1) \div 4 + 1])
RgbaToGrayOK(px, res, dt) ==
    AllOK(Len(px) \div 4, res, LAMBDA i :
        LET r == px[4 * i - 3]  g == px[4 * i - 2]  b == px[4 * i - 1]
        IN \/ UNK \in {r, g, b}
           \/ IF dt = 0 THEN TruncOK(res[i], (30 * r) + (59 * g) + (11 * b), 100)
              ELSE NearOK(res[i], Clamp((30 * r) + (59 * g) + (11 * b), 0, 100 * F), 100, 2))
UcToF32OK(px, res) ==
    AllOK(Len(px), res, LAMBDA i : px[i] = UNK \/ NearOK(res[i], px[i] * F, 255, 1))
F32ToUcOK(px, res) ==
    AllOK(Len(px), res, LAMBDA i :
        px[i] = UNK \/ (IF px[i] >= F THEN res[i] = 255
                        ELSE IF px[i] <= 0 THEN res[i] = 0
                        \* the recorded value is within half a unit of the float
                        ELSE res[i] \in ((px[i] * 255 - 129) \div F)..((px[i] * 255 + 129) \div F)))

(* border rules *)
Repeat(i, n) == Clamp(i, 0, n - 1)
RECURSIVE Mirror(_, _)
Mirror(i, n) == IF n = 1 THEN 0
                ELSE IF i < 0 THEN Mirror(0 - i, n)
                ELSE IF i >= n THEN Mirror(2 * (n - 1) - i, n) ELSE i

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

AAKernel == <<1, 6, 11, 6, 1>>
AASumX(x, i, j) == SumTo([k \in 1..5 |-> AAKernel[k] * G(x, Mirror(2 * i + k - 3, x.w), j)], 5)
AASumY(x, i, j) == SumTo([k \in 1..5 |-> AAKernel[k] * G(x, i, Mirror(2 * j + k - 3, x.h))], 5)

BoxSumX(x, i, j, r) == SumTo([k \in 1..(2 * r + 1) |-> G(x, Repeat(i + k - 1 - r, x.w), j)], 2 * r + 1)
BoxSumY(x, i, j, r) == SumTo([k \in 1..(2 * r + 1) |-> G(x, i, Repeat(j + k - 1 - r, x.h))], 2 * r + 1)
\* the image a box filter along x leaves
BoxX(x, r) == [x EXCEPT !.px = [p \in 1..Len(x.px) |->
                  BoxSumX(x, (p - 1) % x.w, (p - 1) \div x.w, r) \div (2 * r + 1)]]

UpNum(x, i, j) ==  \* <<numerator, denominator>> of upsampled pixel (i, j)
    LET i0 == i \div 2  j0 == j \div 2
        i1 == Min(i0 + (i % 2), x.w - 1)
        j1 == Min(j0 + (j % 2), x.h - 1)
        a == G(x, i0, j0)  b == G(x, i1, j0)  c == G(x, i0, j1)  d == G(x, i1, j1)
    IN IF i1 # i0 /\ j1 # j0 THEN <<a + b + c + d, 4>>
       ELSE IF i1 # i0 THEN <<a + b, 2>>
       ELSE IF j1 # j0 THEN <<a + c, 2>> ELSE <<a, 1>>

\* derivative numerators: central difference, doubled one-sided at the border
DX(x, i, j) == IF x.w = 1 THEN 0
               ELSE IF i = 0 THEN 2 * (G(x, 1, j) - G(x, 0, j))
               ELSE IF i = x.w - 1 THEN 2 * (G(x, i, j) - G(x, i - 1, j))
               ELSE G(x, i + 1, j) - G(x, i - 1, j)
DY(x, i, j) == IF x.h = 1 THEN 0
               ELSE IF j = 0 THEN 2 * (G(x, i, 1) - G(x, i, 0))
               ELSE IF j = x.h - 1 THEN 2 * (G(x, i, j) - G(x, i, j - 1))
               ELSE G(x, i, j + 1) - G(x, i, j - 1)

\* bilinear sample for scale a.p / a.q: numerator over p^2, border repeated
Bilinear(x, i, j, p, q) ==
    LET i0 == (i * q) \div p   fx == (i * q) % p
        j0 == (j * q) \div p   fy == (j * q) % p
        R(m, n) == G(x, Repeat(m, x.w), Repeat(n, x.h))
    IN   ((R(i0, j0) * (p - fx)) + (R(i0 + 1, j0) * fx)) * (p - fy)
       + ((R(i0, j0 + 1) * (p - fx)) + (R(i0 + 1, j0 + 1) * fx)) * fy

\* separable symmetric kernel a.kx / a.ky (center first, in units of 1/F), border
\* repeated; byte images: result in units of 1/16; float images (values below 16):
\* in units of 1/1024
SmoothX(x, i, j, k) ==
    LET n == Len(k)
    IN SumTo([m \in 1..(2 * n - 1) |->
                k[Abs(m - n) + 1] * (IF x.dt = 0 THEN G(x, Repeat(i + m - n, x.w), j)
                                     ELSE G(x, Repeat(i + m - n, x.w), j) \div 1024)], 2 * n - 1) \div 4096
Smooth2(x, i, j, kx, ky) ==
    LET n == Len(ky)
    IN SumTo([m \in 1..(2 * n - 1) |->
                ky[Abs(m - n) + 1] * SmoothX(x, i, Repeat(j + m - n, x.h), kx)], 2 * n - 1) \div F

MinPx(x) == LET S == {x.px[i] : i \in 1..Len(x.px)} IN CHOOSE m \in S : \A v \in S : m <= v
MaxPx(x) == LET S == {x.px[i] : i \in 1..Len(x.px)} IN CHOOSE m \in S : \A v \in S : m >= v
RECURSIVE Ratio(_, _)
Ratio(a, b) == IF Abs(a) < 32000 /\ b < 32000 THEN (a * F) \div b ELSE Ratio(a \div 2, b \div 2)

(* result geometry of each operation; stride: the stride asked for *)
Geometry(op, x, a) ==
    LET S(w, h, st, dt) == [w |-> w, h |-> h, stride |-> st, type |-> x.type, dt |-> dt]
    IN CASE op = "down"  -> S(x.w \div 2, x.h \div 2, x.w \div 2, x.dt)
         [] op = "up"    -> S(2 * x.w, 2 * x.h, 2 * x.w, x.dt)
         [] op = "aax"   -> S(x.w \div 2, x.h, 0, x.dt)
         [] op = "aay"   -> S(x.w, x.h \div 2, 0, x.dt)
         [] op \in {"boxx", "boxy", "box"} -> S(x.w, x.h, 0 - 1, x.dt)
         [] op = "smooth" -> S(x.w, x.h, x.w, x.dt)
         [] op \in {"derx", "dery"} -> S(x.w, x.h, 0 - 1, 1)
         [] op = "scale" -> S((x.w * a.p) \div a.q, (x.h * a.p) \div a.q, (x.w * a.p) \div a.q, x.dt)
         [] op = "cmap"  -> [S(x.w, x.h, 0 - 1, 0) EXCEPT !.type = 1]
         [] OTHER        -> S(x.w, x.h, x.stride, x.dt)     \* axpy, norm, in place

PixelsOK(op, x, a, g, res) ==
    LET I(p) == (p - 1) % g.w
        J(p) == (p - 1) \div g.w
        n == g.w * g.h * NCh(g.type)
    IN CASE op = "down" -> AllOK(n, res, LAMBDA p : res[p] = G(x, 2 * I(p), 2 * J(p)))
         [] op = "up"   -> AllOK(n, res, LAMBDA p : LET u == UpNum(x, I(p), J(p))
                              IN IF x.dt = 0 THEN res[p] = u[1] \div u[2] ELSE NearOK(res[p], u[1], u[2], 1))
         [] op = "aax"  -> AllOK(n, res, LAMBDA p : IF x.dt = 0 THEN TruncOK(res[p], AASumX(x, I(p), J(p)), 25)
                                                   ELSE NearOK(res[p], AASumX(x, I(p), J(p)), 25, 8))
         [] op = "aay"  -> AllOK(n, res, LAMBDA p : IF x.dt = 0 THEN TruncOK(res[p], AASumY(x, I(p), J(p)), 25)
                                                   ELSE NearOK(res[p], AASumY(x, I(p), J(p)), 25, 8))
         [] op = "boxx" -> AllOK(n, res, LAMBDA p :
                              IF x.dt = 0 THEN TruncExact(res[p], BoxSumX(x, I(p), J(p), a.rx), 2 * a.rx + 1)
                              ELSE NearOK(res[p], BoxSumX(x, I(p), J(p), a.rx), 2 * a.rx + 1, 8))
         [] op = "boxy" -> AllOK(n, res, LAMBDA p :
                              IF x.dt = 0 THEN TruncExact(res[p], BoxSumY(x, I(p), J(p), a.ry), 2 * a.ry + 1)
                              ELSE NearOK(res[p], BoxSumY(x, I(p), J(p), a.ry), 2 * a.ry + 1, 8))
         [] op = "box"  -> LET y == BoxX(x, a.rx)
                           IN AllOK(n, res, LAMBDA p :
                              IF x.dt = 0 THEN TruncExact(res[p], BoxSumY(y, I(p), J(p), a.ry), 2 * a.ry + 1)
                              ELSE NearOK(res[p], BoxSumY(y, I(p), J(p), a.ry), 2 * a.ry + 1, 16))
         [] op = "derx" -> AllOK(n, res, LAMBDA p : IF x.dt = 0 THEN NearOK(res[p], DX(x, I(p), J(p)) * F, 255, 2)
                                                   ELSE NearOK(res[p], DX(x, I(p), J(p)), 1, 2))
         [] op = "dery" -> AllOK(n, res, LAMBDA p : IF x.dt = 0 THEN NearOK(res[p], DY(x, I(p), J(p)) * F, 255, 2)
                                                   ELSE NearOK(res[p], DY(x, I(p), J(p)), 1, 2))
         [] op = "scale" -> AllOK(n, res, LAMBDA p : LET v == Bilinear(x, I(p), J(p), a.p, a.q)
                              IN IF x.dt = 0 THEN TruncOK(res[p], v, a.p * a.p) ELSE NearOK(res[p], v, a.p * a.p, 64))
         [] op = "smooth" -> AllOK(n, res, LAMBDA p : LET v == Smooth2(x, I(p), J(p), a.kx, a.ky)
                              IN IF x.dt = 0 THEN res[p] * 16 <= v + 4 /\ (res[p] + 2) * 16 >= v - 4
                                 ELSE ((res[p] \div 64) - v) \in -4..24)
         [] op = "axpy" -> AllOK(n, res, LAMBDA p :
                              IF x.dt = 0 THEN TruncExact(res[p], (a.a * x.px[p]) + a.y, 16)
                              ELSE NearOK(res[p], (a.a * x.px[p]) + (a.y * F), 16, 4))
         [] op = "norm" -> LET lo == MinPx(x) hi == MaxPx(x) t == Max(Abs(lo), Abs(hi))
                           IN n = Len(res) /\ (n > 0 => \A p \in 1..n :
                                IF lo = hi THEN res[p] = 0
                                ELSE IF a.sym THEN Abs(res[p] - (Ratio(x.px[p], 2 * t) + (F \div 2))) <= 16
                                ELSE Abs(res[p] - Ratio(x.px[p] - lo, hi - lo)) <= 16)
         [] op = "cmap" -> AllOK(n, res, LAMBDA p :
                              LET v == x.px[(p - 1) \div 4 + 1]
                              IN IF p % 4 = 0 THEN res[p] = 255
                                 ELSE IF x.dt = 0 THEN res[p] = v \/ (v > 0 /\ res[p] = v - 1)
                                 ELSE \/ res[p] = (v * 255) \div F
                                      \/ (v * 255) % F = 0 /\ v > 0 /\ res[p] = (v * 255) \div F - 1
                                      \/ (v * 255) % F >= F - 2 /\ res[p] = (v * 255) \div F + 1)

SubtractOK(x, y, w, h, res) ==
    AllOK(w * h, res, LAMBDA p : LET i == (p - 1) % w  j == (p - 1) \div w
                                     d == G(x, i, j) - G(y, i, j)
                                 IN res[p] = IF x.dt = 0 THEN d * F ELSE d)
===============================================================================
