------------------------------ MODULE CameraTrace ------------------------------
EXTENDS Camera, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Near(a, b, tol) == Abs(a - b) <= tol
RotOf(e) == CASE e.kind = "zyx" -> ZYX(e.a[1], e.a[2], e.a[3])
              [] e.kind = "xyz" -> XYZ(e.a[1], e.a[2], e.a[3])
              [] OTHER -> AxisAngle(e.v, e.m, e.a[1])
Rotation(e) == LET r == RotOf(e) IN AllMilli(e.r, r.n, r.d, 1) /\ AllMilli(e.inv, Tr(r.n), r.d, 1) /\ e.axkept
CamOf(e) == Camera(IF e.hk THEN e.k ELSE Ident, IF e.hr THEN RotOf(e) ELSE [n |-> Ident, d |-> 1], IF e.ht THEN e.t ELSE <<0, 0, 0>>)
RECURSIVE MinDepth(_, _, _)
MinDepth(p, x, i) == LET d == Abs(Point(p, x[i])[3]) IN IF i = Len(x) THEN d ELSE Min2(d, MinDepth(p, x, i + 1))
Project(e) == LET p == CamOf(e)
              IN /\ AllMilli(e.p, p.n, p.d, 1) /\ e.kept
                 /\ Len(e.h) = Len(e.x)
                 /\ \A i \in 1..Len(e.x) : AllMilli(e.h[i], PointH(p, Append(e.x[i], e.w[i])), p.d, 2)
                 /\ (\A i \in 1..Len(e.x) : Point(p, e.x[i])[3] # 0) =>
                       /\ Len(e.q) = Len(e.x)
                       /\ IsMilli(e.s, MinDepth(p, e.x, 1), p.d, 1)
                       /\ \A i \in 1..Len(e.x) : LET y == Point(p, e.x[i]) IN IsMilli(e.q[i][1], y[1], y[3], 2) /\ IsMilli(e.q[i][2], y[2], y[3], 2)
RECURSIVE Firsts(_, _, _)
Firsts(in, i, n) == IF n = 0 \/ i > Len(in) THEN <<>> ELSE IF in[i] = 1 THEN <<i>> \o Firsts(in, i + 1, n - 1) ELSE Firsts(in, i + 1, n)
Triangulate(e) == LET ids == Firsts(e.in, 1, e.npt)
                      r == RotOf(e)
                  IN /\ e.kept /\ e.got = Len(ids) /\ e.rest
                     /\ Len(e.ids) = Len(ids) /\ \A i \in 1..Len(ids) : e.ids[i] + 1 = ids[i]
                     /\ \A i \in 1..Len(ids) : LET x == e.x[ids[i]] IN Usable(x, r, e.t) => \A j \in 1..3 : Near(e.X[i][j], 1000 * x[j], 15)
EssRt(e) == LET r == RotOf(e) IN AllMilli(e.e, Essential(r.n, e.t), r.d, 1)
EssF(e) == AllMilli(e.e, FromF(e.f, e.k, e.kp), 1, 1)
\* a matrix in thousandths is a rotation
AlmostRot(r) == LET c(k) == <<r[(3 * k) - 2], r[(3 * k) - 1], r[3 * k]>>
                IN /\ \A i, j \in 1..3 : Near(Dot(c(i), c(j)), IF i = j THEN 1000000 ELSE 0, 5000)
                   /\ \A i \in 1..3 : Near(Cross(c(1), c(2))[i] \div 1000, c(3)[i], 6)
\* [t]x R in thousandths, from thousandths
EssMilli(r, t) == [i \in 1..9 |-> Essential(r, t)[i] \div 1000]
IsTrue(e, r, t) == LET q == RotOf(e) IN AllMilli(r, q.n, q.d, 4) /\ AllMilli(t, e.t, e.m2, 4)
Decompose(e) == LET q == RotOf(e)
                    ess == Essential(q.n, e.t)
                    good(i) == /\ AlmostRot(e.R[i]) /\ Near(Dot(e.T[i], e.T[i]), 1000000, 5000)
                               /\ LET g == EssMilli(e.R[i], e.T[i])
                                  IN (\A k \in 1..9 : IsMilli(g[k], ess[k], q.d * e.m2, 8)) \/ (\A k \in 1..9 : IsMilli(0 - g[k], ess[k], q.d * e.m2, 8))
                    far(i, j) == (\E k \in 1..9 : ~Near(e.R[i][k], e.R[j][k], 20)) \/ (\E k \in 1..3 : ~Near(e.T[i][k], e.T[j][k], 20))
                    usable == {i \in 1..Len(e.x) : Usable(e.x[i], q, e.t)}
                    front == \A i \in 1..Len(e.x) : InFront(e.x[i], q, e.t)
                IN /\ e.ekept /\ e.smin /\ \A i \in 1..4 : good(i)
                   /\ \A i, j \in 1..4 : i # j => far(i, j)
                   /\ \E i \in 1..4 : IsTrue(e, e.R[i], e.T[i])
                   /\ e.ckept /\ (e.hz => e.same) /\ e.pick \in 0..3
                   /\ ((Len(e.x) = Cardinality(usable) /\ front) =>
                         /\ IsTrue(e, e.R[e.pick + 1], e.T[e.pick + 1])
                         /\ (e.hz => e.z = 2 * Len(e.x)))
Mark(e) == LET n == Len(e.x)
               v == [i \in 1..n |-> EpiVerdict(e.f, e.x[i], e.xp[i], e.tol2)]
           IN /\ e.kept /\ Len(e.m) = n
              /\ \A i \in 1..n : IF v[i] = "tie" THEN TRUE ELSE ((e.m[i] = 1) <=> (v[i] = "in"))
              /\ e.got = Cardinality({i \in 1..n : e.m[i] = 1})
              /\ \A i \in 1..n : LET k == Line(e.f, e.x[i]) IN \A j \in 1..3 : e.lines[i][j] = 1000 * k[j]
\* the epipole has no epipolar line
Lined(e, i) == LET k == Line(e.f, e.x[i]) IN k[1] # 0 \/ k[2] # 0
\* ---- estimation from integer correspondences
Used(e) == CASE e.via = "8pt" -> {e.ids[i] + 1 : i \in 1..8}
             [] e.via = "all" -> 1..Len(e.x)
             [] OTHER -> {i \in 1..Len(e.x) : e.in[i] = 1}
Exact(e, S) == \A i \in S : Form(e.f, Append(e.x[i], 1), Append(e.xp[i], 1)) = 0
Estimate(e) == LET S == Used(e)
               IN /\ e.kept
                  /\ IF e.via # "8pt" /\ Cardinality(S) < 8 THEN e.max /\ e.unt
                     ELSE /\ ~e.max /\ Near(e.det, 0, 20)
                          /\ ((Exact(e, S) /\ Rank(e.x, e.xp, S) = 8) =>
                                /\ e.small /\ \A i \in S : Lined(e, i) => Near(e.dist[i], 0, 2)
                                \* the estimate is the one matrix that satisfies the constraints
                                /\ LET k == CHOOSE k \in 1..9 : e.f[k] # 0 /\ \A j \in 1..9 : Abs(e.f[j]) <= Abs(e.f[k])
                                   IN \A j \in 1..9 : IsMilli(e.F[j] * (IF e.F[k] > 0 THEN 1 ELSE -1), e.f[j] * (IF e.f[k] > 0 THEN 1 ELSE -1), Abs(e.f[k]), 3))
\* the correspondences of the exact matrix, in the order the estimator left them
Ransac(e) == LET n == Len(e.x)
                 good == {i \in 1..n : Lined(e, i) /\ Form(e.f, Append(e.x[i], 1), Append(e.xp[i], 1)) = 0}
                 at(i) == e.order[i] + 1
             IN /\ Len(e.order) = n /\ {at(i) : i \in 1..n} = 1..n /\ e.fields
                /\ IF n < 8 THEN e.got = 0 /\ e.unt
                   ELSE /\ \A i \in 1..(n - 1) : e.cost[at(i)] <= e.cost[at(i + 1)]
                        /\ e.got = Cardinality({i \in 1..n : e.m[i] = 1})
                        /\ Near(e.det, 0, 20)
                        /\ \A i \in 1..n : IF Near(e.dist[i], e.tol, 5) \/ ~Lined(e, at(i)) THEN TRUE ELSE ((e.m[i] = 1) <=> (e.dist[i] < e.tol))
                        \* eight correspondences are the only sample there is
                        /\ ((n = 8 /\ e.iter > 0 /\ Cardinality(good) = 8 /\ Rank(e.x, e.xp, 1..8) = 8) => e.got = 8)
                        /\ ((e.clear /\ e.iter > 0) => \A i \in 1..n : at(i) \in good => e.m[i] = 1)
Step(e) == CASE e.op = "case" -> TRUE
             [] e.op = "rot" -> Rotation(e)
             [] e.op = "project" -> Project(e)
             [] e.op = "tri" -> Triangulate(e)
             [] e.op = "essrt" -> EssRt(e)
             [] e.op = "essf" -> EssF(e)
             [] e.op = "decomp" -> Decompose(e)
             [] e.op = "mark" -> Mark(e)
             [] e.op = "est" -> Estimate(e)
             [] e.op = "ransac" -> Ransac(e)
             [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
