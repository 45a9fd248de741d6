--------------------------- MODULE HomographyTrace ---------------------------
EXTENDS Homography, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Near(a, b, tol) == Abs(a - b) <= tol
\* every point of r (thousandths) is the integer point of q
Maps(r, q) == Len(r) = Len(q) /\ \A i \in 1..Len(q) : \A j \in 1..2 : Near(r[i][j], 1000 * q[i][j], 4)
Transfer(e) == LET p == Mul(e.h, e.x) IN IF p[3] = 0 THEN TRUE ELSE /\ (e.hs => e.s = p[3]) /\ \A j \in 1..2 : IsMilli(e.r[j], p[j], p[3], 2)
Mark(e) == LET n == Len(e.x)
               in(i) == IF e.inv THEN InlierOf(e.h, e.xp[i], e.x[i], e.tol2) ELSE InlierOf(e.h, e.x[i], e.xp[i], e.tol2)
           IN /\ e.kept /\ Len(e.m) = n
              /\ \A i \in 1..n : (e.m[i] = 1) <=> in(i)
              /\ e.got = Cardinality({i \in 1..n : in(i)}) /\ e.cnt = e.got
Unit(e) == /\ (General(e.x) /\ OriginFinite(e.x) => ~e.zero)
           /\ (General(e.x) /\ ~e.zero => Maps(e.r, UnitQuad))
Four(e) == /\ e.kept
           /\ ((General(e.x) /\ General(e.xp)) =>
                  /\ (OriginFinite(e.x) /\ OriginFinite(e.xp) => ~e.zero)
                  /\ (~e.zero => Maps(e.r, e.xp)))
Used(e) == {i \in 1..Len(e.x) : e.inl => e.in[i] = 1}
\* four correspondences in general position determine the homography
Determined(e) == \E i, j, k, m \in Used(e) : i < j /\ j < k /\ k < m /\ General(<<e.x[i], e.x[j], e.x[k], e.x[m]>>)
Dlt(e) == /\ e.kept
          /\ IF Cardinality(Used(e)) < 4 THEN e.max /\ e.unt
             ELSE ~e.max /\ (Determined(e) => e.small /\ \A i \in 1..Len(e.x) : LET p == Mul(e.h, e.x[i]) IN Near(e.r[i][1], 1000 * p[1], 20) /\ Near(e.r[i][2], 1000 * p[2], 20))
\* unimodular affine maps have integer inverses
Inv(h) == LET d == (h[1] * h[5]) - (h[2] * h[4])
              a == d * h[5]  b == -(d * h[2])  c == -(d * h[4])  f == d * h[1]
          IN <<a, b, 0, c, f, 0, -((a * h[7]) + (c * h[8])), -((b * h[7]) + (f * h[8])), 1>>
RECURSIVE Sum(_, _, _, _)
Sum(h, x, xp, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Centi(Dist2(h, x[i], xp[i])[1]) + Sum(h, x, xp, S \ {i})
Terr(e) == LET S == {i \in 1..Len(e.x) : e.in[i] = 1}
               n == Cardinality(S)
               f == Sum(e.h, e.x, e.xp, S)
               b == Sum(Inv(e.h), e.xp, e.x, S)
           IN e.kept /\ (n > 0 => CASE e.kind = "fwd" -> Near(n * e.r, f, 2 * n + 1)
                                    [] e.kind = "bwd" -> Near(n * e.r, b, 2 * n + 1)
                                    [] OTHER -> Near(2 * n * e.r, f + b, 4 * n + 2))
Stats(e) == LET n == Len(e.x)
                diff(s) == \E i, j \in 1..n : s[i] # s[j]
            IN /\ e.kept
               /\ \A i \in 1..4 : Near(e.cx[i], 0, 1)
               /\ (diff(e.x) => Near(e.md[1], 1000 * n, 2)) /\ (diff(e.xp) => Near(e.md[2], 1000 * n, 2))
               /\ Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], 20)
               /\ \A i \in 1..Len(e.fa) : Near(e.fa[i], e.fb[i], 20)
Step(e) == CASE e.op = "case" -> TRUE
             [] e.op = "transfer" -> Transfer(e)
             [] e.op = "mark" -> Mark(e)
             [] e.op = "check" -> LET v == CheckVerdict(e.h, e.c) IN v = "tie" \/ (e.r <=> v = "yes")
             [] e.op = "unit" -> Unit(e)
             [] e.op = "four" -> Four(e)
             [] e.op = "dlt" -> Dlt(e)
             [] e.op = "terr" -> Terr(e)
             [] e.op = "stats" -> Stats(e)
             [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
