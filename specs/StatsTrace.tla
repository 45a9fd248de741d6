----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<x, l>>
Abs(v) == IF v < 0 THEN -v ELSE v
\* mean in hundredths, standard deviation in hundredths
Explains(e, s) ==
    LET r == Summary(s) n == Len(s) d == n * (n - 1)
    IN /\ e.n = n /\ SameBag(e.after, s)
       /\ e.min = 2 * r.min /\ e.max = 2 * r.max
       /\ e.med = r.med2 /\ e.lq = r.lq2 /\ e.uq = r.uq2 /\ e.iqr = r.uq2 - r.lq2
       /\ (IF n = 0 THEN e.mean = 0 ELSE Abs((e.mean * n) - (100 * r.sum)) <= n)
       /\ (IF n < 2 THEN e.sd = 0 ELSE Abs((e.sd * e.sd * d) - (10000 * r.dev)) <= (e.sd + 1) * d)
Sign(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
Step(e) ==
  \/ e.op = "case" /\ Clear
  \/ e.op = "stats" /\ x' = e.x /\ Explains(e, e.x) = TRUE
  \/ e.op = "cmp" /\ UNCHANGED x /\ e.i = Sign(e.a - e.b) /\ e.d = Sign(e.a - e.b) /\ e.sg = Sign(e.a)
       /\ e.lo = [k \in 1..3 |-> IF e.a < e.b THEN e.a ELSE e.b] /\ e.hi = [k \in 1..3 |-> IF e.a < e.b THEN e.b ELSE e.a]
  \/ e.op = "erf" /\ UNCHANGED x /\ Abs(e.r - Erf8(e.k)) <= 1
TraceInit == StatsInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
