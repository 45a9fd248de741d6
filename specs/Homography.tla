------------------------------ MODULE Homography ------------------------------
(* Planar homographies in exact integer geometry (nx_homography.c).  A matrix  *)
(* is the library's nine numbers, column by column; points are integer pairs.  *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Hom(p) == <<p[1], p[2], 1>>
Cross(a, b) == <<(a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1])>>
Mul(h, p) == <<(h[1] * p[1]) + (h[4] * p[2]) + h[7], (h[2] * p[1]) + (h[5] * p[2]) + h[8], (h[3] * p[1]) + (h[6] * p[2]) + h[9]>>
\* a value given in thousandths is num/den up to rounding
IsMilli(v, num, den, tol) == den # 0 /\ Abs((v * den) - (1000 * num)) <= tol * Abs(den)
Collinear(a, b, c) == ((b[1] - a[1]) * (c[2] - a[2])) = ((b[2] - a[2]) * (c[1] - a[1]))
General(q) == \A i, j, k \in 1..4 : (i < j /\ j < k) => ~Collinear(q[i], q[j], q[k])
\* the line that a map of quadrangle q onto the unit square sends to infinity
Vanishing(q) == LET h(i) == Hom(q[i])
                IN Cross(Cross(Cross(h(1), h(2)), Cross(h(4), h(3))), Cross(Cross(h(1), h(4)), Cross(h(2), h(3))))
OriginFinite(q) == Vanishing(q)[3] # 0
UnitQuad == <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>
\* ---- inliers: squared distance against the squared tolerance (in half units)
\* den is a power of two, so the mapped point is exact
Dist2(h, x, xp) == LET p == Mul(h, x)
                       a == p[1] - (xp[1] * p[3])
                       b == p[2] - (xp[2] * p[3])
                   IN <<(a * a) + (b * b), p[3] * p[3]>>
InlierOf(h, x, xp, tol2) == LET d == Dist2(h, x, xp) IN 4 * d[1] < tol2 * tol2 * d[2]
\* ---- the sanity check: the image of the square (-1,-1) (1,-1) (1,1) (-1,1)
\* keeps its orientation and its diagonals keep an angle; cosine bound is c / 8
Corner(h, i) == Mul(h, <<<<-1, -1>>, <<1, -1>>, <<1, 1>>, <<-1, 1>>>>[i])
\* corners over a common denominator k (all denominators positive)
Common(h) == LET d == {Corner(h, i)[3] : i \in 1..4}
             IN CHOOSE k \in 1..1000 : (\A x \in d : x > 0 => k % x = 0) /\ \A m \in 1..(k - 1) : ~(\A x \in d : x > 0 => m % x = 0)
At(h, k, i) == LET c == Corner(h, i) IN <<c[1] * (k \div c[3]), c[2] * (k \div c[3])>>
CheckVerdict(h, c) ==
    LET k == Common(h)
        a == At(h, k, 1)  b == At(h, k, 2)  cc == At(h, k, 3)  d == At(h, k, 4)
        ac == <<cc[1] - a[1], cc[2] - a[2]>>
        bd == <<b[1] - d[1], b[2] - d[2]>>
        side(p) == (ac[2] * (p[1] - a[1])) - (ac[1] * (p[2] - a[2]))
        dot == (ac[1] * bd[1]) + (ac[2] * bd[2])
        l == 64 * (dot * dot)
        r == (c * c) * ((ac[1] * ac[1]) + (ac[2] * ac[2])) * ((bd[1] * bd[1]) + (bd[2] * bd[2]))
    IN IF ~(side(b) > 0 /\ side(d) < 0) THEN "no"
       ELSE IF l = r THEN "tie" ELSE IF l < r THEN "yes" ELSE "no"
\* ---- transfer errors in hundredths
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m)
Centi(d2) == ISqrt(10000 * d2, 0, 46000)
===============================================================================
