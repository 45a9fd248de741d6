------------------------------- MODULE CorrTrace -------------------------------
EXTENDS Corr, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Near(a, b, t) == a - b <= t /\ b - a <= t
RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + Sum(f, n - 1)
RECURSIVE Root(_, _, _)
Root(v, a, b) == IF a >= b THEN a ELSE LET c == (a + b + 1) \div 2 IN IF c * c <= v THEN Root(v, c, b) ELSE Root(v, a, c - 1)
Norm2(x, y) == Root((x * x) + (y * y), 0, 46000)
\* observed row: x y xp yp (1/3200) cost (1/32) sx sxp (1/3200) id idp inlier
Label(r, o) == o[5] = r.cost /\ o[8] = r.id /\ o[9] = r.idp /\ o[10] = (IF r.inl THEN 1 ELSE 0)
PlainOK(r, o, t) == /\ Label(r, o)
                    /\ Near(o[1], 100 * r.x, t) /\ Near(o[2], 100 * r.y, t) /\ Near(o[3], 100 * r.xp, t) /\ Near(o[4], 100 * r.yp, t)
                    /\ Near(o[6], 100 * r.sx, t) /\ Near(o[7], 100 * r.sxp, t)
\* product of a value in thousandths with a unit in 1/100, and what rounding either may cost
Times(q, d) == ((q \div 1000) * d) + (((q % 1000) * d) \div 1000)
Slack(q, d) == (d \div 500) + (Abs(q) \div 1000) + 4
\* one side of a normalised set: q positions in thousandths of the unit, p scales, m mean and d unit (1/100 pixel)
SideOK(x(_), y(_), sg(_), qx(_), qy(_), qs(_), m, d, n) ==
    LET cx == Sum(x, n)  cy == Sum(y, n)
        same == \A i \in 1..n : x(i) = x(1) /\ y(i) = y(1)
    IN /\ Near(32 * n * m[1], 100 * cx, 32 * n) /\ Near(32 * n * m[2], 100 * cy, 32 * n)
       /\ Near(Sum(qx, n), 0, 2 * n) /\ Near(Sum(qy, n), 0, 2 * n)
       /\ (IF same THEN d = 100 ELSE Near(Sum(LAMBDA i : Norm2(qx(i), qy(i)), n), 1000 * n, 3 * n))
       \* position = mean + unit * normalised position; in 1/100 pixel
       /\ \A i \in 1..n : /\ Near(Times(qx(i), d) + m[1], (100 * x(i)) \div 32, Slack(qx(i), d))
                          /\ Near(Times(qy(i), d) + m[2], (100 * y(i)) \div 32, Slack(qy(i), d))
                          /\ Near(Times(qs(i), d), (100 * sg(i)) \div 32, Slack(qs(i), d))
UnitOK(m, v) == LET n == Len(m) IN
    /\ \A i \in 1..n : Label(m[i], v.rows[i])
    /\ IF n = 0 THEN v.st = <<0, 0, 0, 0, 100, 100>>
       ELSE /\ SideOK(LAMBDA i : m[i].x, LAMBDA i : m[i].y, LAMBDA i : m[i].sx, LAMBDA i : v.nrm[i][1], LAMBDA i : v.nrm[i][2], LAMBDA i : v.nrm[i][5], <<v.st[1], v.st[2]>>, v.st[5], n)
            /\ SideOK(LAMBDA i : m[i].xp, LAMBDA i : m[i].yp, LAMBDA i : m[i].sxp, LAMBDA i : v.nrm[i][3], LAMBDA i : v.nrm[i][4], LAMBDA i : v.nrm[i][6], <<v.st[3], v.st[4]>>, v.st[6], n)
\* what can be seen of a set
ShowsOK(a, v) == /\ v.live = a.live
                 /\ (a.live => /\ v.size = Len(a.m) /\ Len(v.rows) = v.size /\ v.nin = Inliers(a.m)
                               /\ IF a.z THEN UnitOK(a.m, v)
                                  ELSE /\ v.st = <<0, 0, 0, 0, 100, 100>>
                                       /\ \A i \in 1..v.size : PlainOK(a.m[i], v.rows[i], IF a.soft THEN 10 ELSE 0))
Shows(e) == \A s \in Slots : ShowsOK(set'[s], e.all[s])
RowOf(r) == Row(r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8], r[9], r[10] = 1)
KeyOf(k) == [xs |-> k[1], ys |-> k[2], scale |-> k[3], id |-> k[4]]
\* the recorded order, when every identity is there once
TakenOK(m, v) == Len(v.rows) = Len(m) /\ \A i \in 1..Len(m) : Cardinality({j \in 1..Len(m) : v.rows[j][8] = m[i].id}) = 1
Taken(m, v) == [j \in 1..Len(m) |-> m[CHOOSE i \in 1..Len(m) : m[i].id = v.rows[j][8]]]
\* integer part of a position, towards zero
Trunc(v, d) == IF v >= 0 THEN v \div d ELSE 0 - ((0 - v) \div d)
Step(e) ==
  \/ e.op = "case" /\ set' = [s \in Slots |-> None]
  \/ e.op = "new" /\ New(e.s)
  \/ e.op = "clone" /\ Clone(e.d, e.s)
  \/ e.op = "add" /\ Add(e.s, RowOf(e.r)) /\ e.ret = Len(set'[e.s].m)
  \/ e.op = "key" /\ Add(e.s, OfKeys(KeyOf(e.k), KeyOf(e.kp), e.s0, e.cost, e.inl)) /\ e.ret = Len(set'[e.s].m)
  \/ e.op = "mark" /\ Mark(e.s, e.k, e.v) /\ e.got = e.v
  \/ e.op = "put" /\ Put(e.s, e.k, e.x, e.y)
  \/ e.op = "clear" /\ Clear(e.s)
  \/ e.op = "norm" /\ Normalize(e.s)
  \/ e.op = "den" /\ Denormalize(e.s)
  \/ e.op = "reserve" /\ Live(e.s) /\ UNCHANGED set
  \/ e.op = "sort" /\ TakenOK(set[e.s].m, e.all[e.s]) /\ Sort(e.s, Taken(set[e.s].m, e.all[e.s]))
  \* keypoint positions in the frame of the image, scales in eighths
  \/ e.op = "at" /\ e.x0 = Trunc(e.x * e.scale, 8) /\ e.y0 = Trunc(e.y * e.scale, 8) /\ e.xs0 = e.xs * e.scale /\ e.ys0 = e.ys * e.scale /\ UNCHANGED set
  \* the comparison used with qsort orders by cost
  \/ e.op = "cmp" /\ (e.v > 0) = (e.a > e.b) /\ (e.v < 0) = (e.a < e.b) /\ UNCHANGED set
TraceInit == set = [s \in Slots |-> None] /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ (Trace[l].op \in {"case", "at", "cmp"} \/ Shows(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<set, l>>
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
