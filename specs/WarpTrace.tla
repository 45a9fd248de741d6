------------------------------- MODULE WarpTrace -------------------------------
EXTENDS Warp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<wvars, l>>
H == INSTANCE Homography
Abs(v) == IF v < 0 THEN -v ELSE v
Near(a, b, tol) == Abs(a - b) <= tol
Matches(r, want) == Len(r) = Len(want) /\ \A i \in 1..Len(want) : want[i] = Any \/ r[i] = want[i]
\* ---- 45 degree rotation: position in 1/256 pixel
Root(v) == (v * 46341) \div 256                 \* v / sqrt 2 for v in pixels, in 1/256
RotPos(e, x, y) == LET s == IF e.cw THEN 1 ELSE -1
                       X == (Root((2 * x) + (s * 2 * y)) - Root(e.dw + (s * e.dh)) + (256 * e.w)) \div 2
                       Y == (Root((2 * y) - (s * 2 * x)) + Root((s * e.dw) - e.dh) + (256 * e.h)) \div 2
                   IN <<X, Y>>
Mix256(e, X, Y) == LET i == X \div 256  j == Y \div 256  u == X % 256  v == Y % 256
                       a(p, q) == e.p[(Clamp(q, e.h) * e.w) + Clamp(p, e.w) + 1]
                   IN (((256 - v) * (((256 - u) * a(i, j)) + (u * a(i + 1, j)))) + (v * (((256 - u) * a(i, j + 1)) + (u * a(i + 1, j + 1))))) \div 65536
Edge(X, n) == Near(X, 0, 3) \/ Near(X, 256 * (n - 1), 3)
Rotated(e) == Len(e.r) = e.dw * e.dh /\
    \A k \in 1..(e.dw * e.dh) :
        LET P == RotPos(e, (k - 1) % e.dw, (k - 1) \div e.dw)
            in == P[1] >= 0 /\ P[1] < 256 * (e.w - 1) /\ P[2] >= 0 /\ P[2] < 256 * (e.h - 1)
            ok == Near(e.r[k], Mix256(e, P[1], P[2]), 5)
        IN IF Edge(P[1], e.w) \/ Edge(P[2], e.h) THEN ok \/ e.r[k] = 0 ELSE IF in THEN ok ELSE e.r[k] = 0
\* ---- transforms: thousandths of num / den
Milli(v, num, den) == Abs((v * den) - (1000 * num)) <= (2 * den) + 1
IsAffine(r, lin, den, post, pre) ==
    LET m == App(lin, pre)
    IN /\ \A i \in 1..2 : Milli(r[i], lin[i], den) /\ Milli(r[i + 3], lin[i + 2], den) /\ Milli(r[i + 6], (post[i] * den) + m[i], den)
       /\ r[3] = 0 /\ r[6] = 0 /\ r[9] = 1000
Persp(e) == (H!General(e.c) /\ H!OriginFinite(e.c)) => \A i \in 1..4 : \A j \in 1..2 : Near(e.r[i][j], 1000 * H!UnitQuad[i][j], e.tol)
\* ---- the warp processor: scale is sc / 2, tilt an integer; the image is a ramp
InvLin(e) == LET m == Mul2(Rot(Neg(e.phi)), Mul2(Diag(e.tilt, 1), Rot(Neg(e.psi)))) IN [i \in 1..4 |-> 2 * m[i]]
InvDen(e) == e.phi[3] * e.psi[3] * e.sc
\* corners of the image under the forward map, times FwdDen
FwdLin(e) == LET m == Mul2(Rot(e.psi), Mul2(Diag(1, e.tilt), Rot(e.phi))) IN [i \in 1..4 |-> e.sc * m[i]]
FwdDen(e) == e.phi[3] * e.psi[3] * 2 * e.tilt
Max2(S) == CHOOSE a \in S : \A b \in S : a >= b
Min2(S) == CHOOSE a \in S : \A b \in S : a <= b
Span(e, j) == LET c == {App(FwdLin(e), p)[j] : p \in {<<0, 0>>, <<e.w, 0>>, <<0, e.h>>, <<e.w, e.h>>}} IN Max2(c) - Min2(c)
SizeOK(v, span, den) == v = (span \div den) + 2 \/ (span % den = 0 /\ v = (span \div den) + 1)
Ramp(e, X, Y) == (1000 * e.base) + (e.gx * X) + (e.gy * Y)          \* thousandths, position in thousandths
Margin(e) == 3 + (IF e.tilt > 1 THEN 4 * e.tilt ELSE 0) + (IF e.sc > 2 THEN 3 * e.sc * e.tilt ELSE 0) + (((((3 * e.post) + 3) * e.tilt) * 2) \div e.sc)
Blurred(e) == e.tilt > 1 \/ e.sc > 2 \/ e.post > 0
Clean(X, n, m) == X >= 1000 * m /\ X <= 1000 * (n - 1 - m)
Beyond(X, n) == X < -20 \/ X > (1000 * (n - 1)) + 20
Cl(X, n) == IF X < 0 THEN 0 ELSE IF X > 1000 * (n - 1) THEN 1000 * (n - 1) ELSE X
ContentOK(e) ==
    /\ Len(e.r) = e.rw * e.rh
    /\ \A k \in 1..(e.rw * e.rh) :
         LET x == (k - 1) % e.rw  y == (k - 1) \div e.rw
             X == (e.inv[1] * x) + (e.inv[3] * y) + e.inv[5]
             Y == (e.inv[2] * x) + (e.inv[4] * y) + e.inv[6]
             v == 1000 * e.r[k]
             g == Abs(e.gx) + Abs(e.gy)
         IN IF Clean(X, e.w, Margin(e)) /\ Clean(Y, e.h, Margin(e))
            THEN LET t == Ramp(e, X, Y) IN v <= t + 1500 + (60 * g) /\ v >= t - (IF Blurred(e) THEN 9500 ELSE 4000) - (60 * g)
            ELSE IF Beyond(X, e.w) \/ Beyond(Y, e.h)
            THEN CASE e.bg = "fixed" -> e.r[k] = e.col
                   [] e.bg = "repeat" -> Abs(v - Ramp(e, Cl(X, e.w), Cl(Y, e.h))) <= 2500 + (1200 * g)
                   [] OTHER -> TRUE
            ELSE TRUE
Processor(e) ==
    /\ \A i \in 1..4 : Milli(e.inv[i], InvLin(e)[i], InvDen(e)) /\ Milli(e.fwd[i], FwdLin(e)[i], FwdDen(e))
    /\ SizeOK(e.rw, Span(e, 1), FwdDen(e)) /\ SizeOK(e.rh, Span(e, 2), FwdDen(e))
    \* the centre of the image goes to the centre of the result, and back
    /\ \A j \in 1..2 : LET c == App(<<e.fwd[1], e.fwd[2], e.fwd[3], e.fwd[4]>>, <<e.w, e.h>>)[j] + (2 * e.fwd[4 + j]) IN Near(c, 1000 * (IF j = 1 THEN e.rw ELSE e.rh), 150)
    /\ \A j \in 1..2 : LET c == App(<<e.inv[1], e.inv[2], e.inv[3], e.inv[4]>>, <<e.rw, e.rh>>)[j] + (2 * e.inv[4 + j]) IN Near(c, 1000 * (IF j = 1 THEN e.w ELSE e.h), 400)
    /\ ContentOK(e) /\ e.kept
\* ---- blurs of the processor: a step is spread over a width that tells the total standard deviation.
\* Tilting by t blurs by 0.8 sqrt(t^2 - 1) before shrinking by t, scaling by s > 1 by 0.8 sqrt(s^2 - 1) before
\* enlarging by s, and the result by the post blur.  Variance in hundredths of a pixel; s = sc / 2.
Var(e) == LET tv == IF e.ax = 0 THEN (64 * ((e.tilt * e.tilt) - 1)) \div (e.tilt * e.tilt) ELSE 0
              sv == IF e.sc > 2 THEN (64 * ((e.sc * e.sc) - 4)) \div 4 ELSE 0
          IN ((e.sc * e.sc * (tv + sv)) \div 4) + (100 * e.post * e.post)
\* samples between a tenth and nine tenths of the step: 2.563 standard deviations (square 6.57), up to two samples
Mid(e) == Cardinality({i \in (Len(e.r) \div 4)..((3 * Len(e.r)) \div 4) : e.r[i] > 40 /\ e.r[i] < 200})
Spread(e) == LET n == Mid(e)  v == (657 * Var(e)) \div 100     \* squared width, hundredths
             IN /\ (n > 2 => 100 * (n - 2) * (n - 2) <= ((13 * v) \div 10) + 100) /\ 100 * (n + 2) * (n + 2) >= (7 * v) \div 10
                /\ e.r[Len(e.r) \div 4] \in 14..21 /\ e.r[(3 * Len(e.r)) \div 4] \in 212..221
Step(e) ==
  \/ e.op = "case" /\ UNCHANGED wvars
  \/ e.op = "warp" /\ src' = [w |-> e.w, h |-> e.h, p |-> e.p] /\ out' = Warped(src', e.dw, e.dh, e.t, e.mode) /\ Matches(e.r, out'.p) /\ e.guard
  \/ e.op = "rot45" /\ UNCHANGED wvars /\ Rotated(e) = TRUE /\ e.guard
  \/ e.op = "sim" /\ UNCHANGED wvars /\ IsAffine(e.r, [i \in 1..4 |-> e.lam * Rot(e.a)[i]], e.a[3], e.post, e.pre) = TRUE
  \/ e.op = "aff" /\ UNCHANGED wvars /\ IsAffine(e.r, AffineLin(e.lam, e.psi, e.q, e.phi), AffineDen(e.psi, e.phi), e.post, e.pre) = TRUE
  \/ e.op = "persp" /\ UNCHANGED wvars /\ Persp(e) = TRUE
  \/ e.op = "edge" /\ UNCHANGED wvars /\ Spread(e) = TRUE
  \/ e.op = "proc" /\ UNCHANGED wvars /\ Processor(e) = TRUE
TraceInit == WarpInit([w |-> 1, h |-> 1, p |-> <<0>>]) /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
