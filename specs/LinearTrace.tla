----------------------------- MODULE LinearTrace -----------------------------
EXTENDS Linear, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<A, l>>
Abs(v) == IF v < 0 THEN -v ELSE v
Near(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Abs(s[i] - t[i]) <= tol
S3(s) == Square(3, s)
S4(s) == Square(4, s)
\* an m by n matrix laid out with ld rows a column: a is the memory, v what the padding held
Held(mem, ld, M, pad) == \A c \in 1..M.n : \A r \in 1..ld : mem[((c - 1) * ld) + r] = IF r <= M.m THEN At(M, r, c) ELSE pad
View(mem, m, n, ld) == Mat(m, n, LAMBDA r, c : mem[((c - 1) * ld) + r])
Lower(s, n) == Mat(n, n, LAMBDA r, c : IF r >= c THEN s[((c - 1) * n) + r] ELSE s[((r - 1) * n) + c])
Upper(s, n) == Mat(n, n, LAMBDA r, c : IF r <= c THEN s[((c - 1) * n) + r] ELSE s[((r - 1) * n) + c])
Thousand(s) == Scale(1000, s)
Milli2(e) == Abs((e.nrm * e.nrm) - (10000 * Norm2(e.u))) <= (2 * e.nrm) + 2       \* nrm in hundredths
Mat3Ops(e) ==
    LET M == S3(e.u)  N == S3(e.v)
    IN /\ e.mul = Times(M, N).a /\ e.smul = Times(M, N).a
       /\ e.ua = Times(Mat(3, 3, LAMBDA r, c : IF r <= c THEN At(M, r, c) ELSE 0), N).a
       /\ e.det = Det3(M) /\ e.idet = <<Det3(M), Det3(M), Det3(M)>>
       /\ (IF Det3(M) = 0 THEN \A k \in 1..3 : e.inv[k] = Scale(0, e.u)
           ELSE \A k \in 1..3 : Near(e.inv[k], Thousand(Adj3(M).a), IF k = 2 THEN 40 ELSE 2))
       /\ e.sub = [i \in 1..9 |-> e.u[i] - e.v[i]]
       /\ e.tf = Times(M, [m |-> 3, n |-> 1, a |-> SubSeq(e.v, 1, 3)]).a
       /\ e.ftx = Dot(<<e.v[3], e.v[4], 1>>, Times(M, [m |-> 3, n |-> 1, a |-> <<e.v[1], e.v[2], 1>>]).a)
       /\ e.cpy = e.u /\ e.eye = Eye(3).a /\ e.zero = Scale(0, e.u) /\ e.szero = Scale(0, e.u)
       /\ Milli2(e)
Mat4Ops(e) ==
    LET M == S4(e.u)  N == S4(e.v)
    IN /\ e.mul = Times(M, N).a /\ e.smul = Times(M, N).a /\ e.eye = Eye(4).a /\ e.tos = e.u
       /\ e.rot = Mat(4, 4, LAMBDA r, c : IF r <= 3 /\ c <= 3 THEN At(S3(SubSeq(e.v, 1, 9)), r, c) ELSE At(M, r, c)).a
       /\ e.tr = Mat(4, 4, LAMBDA r, c : IF r <= 3 /\ c = 4 THEN e.v[r] ELSE At(M, r, c)).a
VecOps(e) ==
    LET n == Len(e.u)  d == [i \in 1..n |-> e.u[i] - e.v[i]]
    IN /\ e.nsq = <<Norm2(e.u), Norm2(e.u)>> /\ Milli2(e) /\ e.axpy = [i \in 1..n |-> e.v[i] + (e.k * e.u[i])]
       /\ e.cpy = e.u /\ e.set = [i \in 1..n |-> e.k] /\ e.z = <<Scale(0, e.u), Scale(0, e.u), Scale(0, e.u)>>
       /\ e.amax = <<ArgMax(e.u), ArgMax(e.u)>> /\ (n > 0 => e.vmax = e.u[ArgMax(e.u) + 1])
       /\ e.dist = Norm2([i \in 1..n |-> Abs(e.u[i]) - Abs(e.v[i])])
       /\ (IF Norm2(e.u) = 0 THEN e.unit = Scale(0, e.u) ELSE \A i \in 1..n : Abs((e.unit[i] * e.nrm) - (100000 * e.u[i])) <= 1200 + e.nrm)
       /\ e.guard
       /\ (n >= 3 => LET p == SubSeq(e.u, 1, 3) q == SubSeq(e.v, 1, 3) z == SubSeq(d, 1, 3) IN
             /\ e.cross = Cross(p, q) /\ e.dot = <<Dot(p, q), Dot(p, q)>> /\ e.nsq3 = <<Norm2(p), Norm2(p)>> /\ e.dsq3 = Norm2(z)
             /\ (IF Norm2(p) = 0 THEN e.unit3 = <<0, 0, 0>> ELSE \A i \in 1..3 : Abs((e.unit3[i] * e.nrm3) - (100000 * p[i])) <= 1200 + e.nrm3)
             /\ e.hom = <<e.u[1], e.u[2], e.u[3], 1, e.k>>)
General(e) ==
    LET M == View(e.u, e.m, e.k, e.lda)  N == View(e.v, e.k, e.n, e.ldb)
    IN /\ Held(e.mul, e.ldc, Times(M, N), -77) /\ Held(e.set, e.lda, Mat(e.m, e.k, LAMBDA r, c : 5), -77) /\ Held(e.zero, e.lda, Mat(e.m, e.k, LAMBDA r, c : 0), -77)
Solve(e) ==
    LET M == IF e.lo THEN Lower(e.u, e.n) ELSE Upper(e.u, e.n)
    IN IF e.sing THEN ~e.ok       \* no pivot at all
       ELSE e.regular => (e.ok /\ Near(e.r, Thousand(e.x), 3) /\ Times(M, [m |-> e.n, n |-> Len(e.x) \div e.n, a |-> e.x]).a = e.b)
Svd(e) == LET k == IF e.m < e.n THEN e.m ELSE e.n IN
    /\ \A j \in 1..Len(e.s) : Len(e.s[j]) = k /\ Near(e.s[j], e.s[1], e.tol) /\ (\A i \in 1..k : e.s[j][i] >= 0) /\ (\A i \in 1..(k - 1) : e.s[j][i] >= e.s[j][i + 1])
    /\ Near(e.rec, Thousand(e.u), e.tol) /\ Near(e.utu, Thousand(Eye(e.m).a), e.tol) /\ Near(e.vvt, Thousand(Eye(e.n).a), e.tol)
    /\ Abs(e.fro - (1000 * Norm2(e.u))) <= 20 * e.tol
Quat(e) ==
    /\ e.mul = QMul(e.u, e.v) /\ e.prod = QMul(e.u, e.v) /\ e.conj = QConj(e.u) /\ e.dot = Dot(e.u, e.v)
    /\ e.add = [i \in 1..4 |-> e.u[i] + e.v[i]] /\ e.sum = e.add /\ e.scl = Scale(3, e.u)
    /\ Milli2(e)
    /\ e.rot = Rotated(e.u, SubSeq(e.v, 2, 4))
    /\ (Norm2(e.u) > 0 =>
           /\ Near(e.R, Thousand(QMat(e.u).a), 3 * Norm2(e.u)) /\ e.t = SubSeq(e.v, 1, 3)
           \* the quaternion of that matrix is the same rotation: |u| times it is u up to sign
           /\ \E s \in {-1, 1} : Near(e.back, Scale(s, Thousand(e.u)), 5)
           \* axis and angle: a turn of 120 degrees about (1,1,1) permutes the axes, one of 180 about n is <<0, n>>
           /\ Near(e.ax, Thousand(<<0>> \o Tail(e.u)), 5) /\ e.ax0 = <<1, 0, 0, 0>>)
Transp(e) == LET M == [m |-> e.m, n |-> e.n, a |-> e.u] IN e.r = Transpose(M).a /\ e.back = e.u /\ e.guard
Text(e) == IF e.m * e.n = 0 THEN e.nul /\ e.rm = 0 /\ e.rn = 0 ELSE ~e.nul /\ e.rm = e.m /\ e.rn = e.n /\ e.r = e.u
Parse(e) == \* rows of a text; all rows must have the same length
    IF \E i, j \in 1..Len(e.rows) : Len(e.rows[i]) # Len(e.rows[j]) THEN e.out = "fatal"
    ELSE IF Len(e.rows) = 0 THEN e.out = "ok" /\ e.nul
    ELSE e.out = "ok" /\ ~e.nul /\ e.rm = Len(e.rows) /\ e.rn = Len(e.rows[1])
         /\ e.r = Mat(Len(e.rows), Len(e.rows[1]), LAMBDA r, c : e.rows[r][c]).a
Step(e) == CASE e.op = "case" -> TRUE [] e.op = "m3" -> Mat3Ops(e) [] e.op = "m4" -> Mat4Ops(e) [] e.op = "vec" -> VecOps(e)
             [] e.op = "gen" -> General(e) [] e.op = "sym" -> Solve(e) [] e.op = "svd" -> Svd(e) [] e.op = "quat" -> Quat(e)
             [] e.op = "tr" -> Transp(e) [] e.op = "text" -> Text(e) [] e.op = "parse" -> Parse(e) [] OTHER -> FALSE
TraceInit == A = [m |-> 0, n |-> 0, a |-> <<>>] /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) = TRUE /\ UNCHANGED A
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
