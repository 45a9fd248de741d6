-------------------------------- MODULE Camera --------------------------------
(* Cameras and two-view geometry in exact integer arithmetic: rotations given  *)
(* by angles with rational sine and cosine, pinhole projection, triangulation, *)
(* essential and fundamental matrices (nx_rotation_3d.c, nx_pinhole.c,         *)
(* nx_epipolar.c, vg_fundamental_matrix.hpp).  A matrix is nine numerators,    *)
(* column by column, over one denominator; an angle is <<cos, sin, den>>.      *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
Min2(a, b) == IF a < b THEN a ELSE b
M(m, i, j) == m[(3 * (j - 1)) + i]
Build(f(_, _)) == [k \in 1..9 |-> f(((k - 1) % 3) + 1, ((k - 1) \div 3) + 1)]
Mul3(a, b) == Build(LAMBDA i, j : (M(a, i, 1) * M(b, 1, j)) + (M(a, i, 2) * M(b, 2, j)) + (M(a, i, 3) * M(b, 3, j)))
Tr(a) == Build(LAMBDA i, j : M(a, j, i))
Vec(a, v) == [i \in 1..3 |-> (M(a, i, 1) * v[1]) + (M(a, i, 2) * v[2]) + (M(a, i, 3) * v[3])]
Dot(u, v) == (u[1] * v[1]) + (u[2] * v[2]) + (u[3] * v[3])
Cross(a, b) == <<(a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1])>>
Det(a) == Dot(<<a[1], a[2], a[3]>>, Cross(<<a[4], a[5], a[6]>>, <<a[7], a[8], a[9]>>))
Scale(k, a) == [i \in DOMAIN a |-> k * a[i]]
Ident == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
\* a value in thousandths is num/den up to rounding
IsMilli(v, num, den, tol) == den # 0 /\ Abs((v * den) - (1000 * num)) <= tol * Abs(den)
AllMilli(v, nums, den, tol) == Len(v) = Len(nums) /\ \A i \in 1..Len(v) : IsMilli(v[i], nums[i], den, tol)
\* ---- elementary rotations
Rx(a) == [n |-> <<a[3], 0, 0, 0, a[1], a[2], 0, -a[2], a[1]>>, d |-> a[3]]
Ry(a) == [n |-> <<a[1], 0, -a[2], 0, a[3], 0, a[2], 0, a[1]>>, d |-> a[3]]
Rz(a) == [n |-> <<a[1], a[2], 0, -a[2], a[1], 0, 0, 0, a[3]>>, d |-> a[3]]
Times(p, q) == [n |-> Mul3(p.n, q.n), d |-> p.d * q.d]
Neg(a) == <<a[1], -a[2], a[3]>>
ZYX(a, b, g) == Times(Rz(g), Times(Ry(b), Rx(a)))
XYZ(a, b, g) == Times(Rx(a), Times(Ry(b), Rz(g)))
\* rotation about an integer axis of integer length m (Rodrigues)
AxisAngle(v, m, a) ==
    LET skew == <<0, v[3], -v[2], -v[3], 0, v[1], v[2], -v[1], 0>>
        f(i, j) == (IF i = j THEN a[1] * (m * m) ELSE 0) + ((v[i] * v[j]) * (a[3] - a[1])) + ((M(skew, i, j) * a[2]) * m)
    IN [n |-> Build(f), d |-> a[3] * (m * m)]
IsRotation(r) == /\ Mul3(Tr(r.n), r.n) = Scale(r.d * r.d, Ident)
                 /\ \A i \in 1..3 : LET c(k) == <<M(r.n, 1, k), M(r.n, 2, k), M(r.n, 3, k)>> IN Scale(r.d, c(3)) = Cross(c(1), c(2))
SameRot(p, q) == Scale(q.d, p.n) = Scale(p.d, q.n)
\* ---- cameras: twelve numerators over d
Camera(k, r, t) == [n |-> Mul3(k, r.n) \o Vec(k, Scale(r.d, t)), d |-> r.d]
Point(p, x) == [i \in 1..3 |-> (p.n[i] * x[1]) + (p.n[3 + i] * x[2]) + (p.n[6 + i] * x[3]) + p.n[9 + i]]
PointH(p, x) == [i \in 1..3 |-> (p.n[i] * x[1]) + (p.n[3 + i] * x[2]) + (p.n[6 + i] * x[3]) + (p.n[9 + i] * x[4])]
\* a point is usable for triangulation: finite in both images, not on the baseline
Usable(x, r, t) == /\ x[3] # 0
                   /\ LET y == Vec(r.n, x) IN y[3] + (r.d * t[3]) # 0
                   /\ Cross(Vec(r.n, x), t) # <<0, 0, 0>>
InFront(x, r, t) == x[3] > 0 /\ Vec(r.n, x)[3] + (r.d * t[3]) > 0
\* ---- essential matrices
Skew(t) == <<0, t[3], -t[2], -t[3], 0, t[1], t[2], -t[1], 0>>
Essential(rn, t) == Mul3(Skew(t), rn)
FromF(f, k, kp) == Mul3(Tr(kp), Mul3(f, k))
\* the epipolar constraint value
Form(f, x, xp) == Dot(xp, Vec(f, x))
\* ---- point to epipolar line distance against a tolerance in half units
Line(f, x) == Vec(f, <<x[1], x[2], 1>>)
EpiVerdict(f, x, xp, tol2) == LET l == Line(f, x)
                                  v == Dot(l, <<xp[1], xp[2], 1>>)
                                  a == 4 * (v * v)
                                  b == (tol2 * tol2) * ((l[1] * l[1]) + (l[2] * l[2]))
                              IN IF a = b /\ b # 0 THEN "tie" ELSE IF a < b THEN "in" ELSE "out"
\* ---- rank of the eight-point system modulo a prime (a lower bound of the rank)
Prime == 32749
Mod(v) == v % Prime
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE LET h == Power(b, e \div 2) s == Mod(h * h) IN IF e % 2 = 1 THEN Mod(s * b) ELSE s
Inverse(b) == Power(b, Prime - 2)
Row(x, xp) == [i \in 1..9 |-> Mod((<<xp[1], xp[2], 1>>[((i - 1) \div 3) + 1]) * (<<x[1], x[2], 1>>[((i - 1) % 3) + 1]))]
RECURSIVE Elim(_, _, _)
Elim(rows, col, rank) ==
    IF col > 9 \/ rows = {} THEN rank
    ELSE LET piv == {r \in rows : r[col] # 0}
         IN IF piv = {} THEN Elim(rows, col + 1, rank)
            ELSE LET p == CHOOSE r \in piv : TRUE
                     iv == Inverse(p[col])
                     sub(r) == LET f == Mod(r[col] * iv) IN [i \in 1..9 |-> Mod(r[i] - Mod(f * p[i]))]
                 IN Elim({sub(r) : r \in (rows \ {p})}, col + 1, rank + 1)
Rank(x, xp, S) == Elim({Row(x[i], xp[i]) : i \in S}, 1, 0)
===============================================================================
