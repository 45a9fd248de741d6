---------------------------- MODULE FiltersTrace ----------------------------
EXTENDS Filters, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<fvars, l>>
Abs(v) == IF v < 0 THEN -v ELSE v
Same == UNCHANGED fvars
\* sum of the kernel in millionths, values in ten thousandths
Gauss(e) == LET w == Weight(e.s, e.nk)
            IN /\ Len(e.k) = e.nk /\ e.guard
               /\ Abs(e.sum - 1000000) <= 20
               /\ \A i \in 1..e.nk : Abs((e.k[i] * w) - (10000 * BellOf(e.s)[i])) <= w + (12 * e.k[i])
               /\ \A i \in 2..e.nk : e.k[i] <= e.k[i - 1]
Step(e) ==
  \/ e.op = "case" /\ data' = <<>> /\ buf' = <<>> /\ border' = 0
  \/ e.op = "load" /\ Load(e.d, e.b, e.mode) /\ e.r = buf' /\ e.kept /\ e.guard
  \/ e.op = "sym" /\ Sym(e.k) /\ e.r = buf' /\ e.guard
  \/ e.op = "box" /\ Box(e.rad) /\ e.r = buf' /\ e.guard      \* the driver multiplies the means by 2 r + 1 again
  \/ e.op = "size" /\ Same /\ e.r = Size(e.s, e.f)
  \/ e.op = "gauss" /\ Same /\ Gauss(e) = TRUE
  \/ e.op = "alloc" /\ Same /\ e.aligned
TraceInit == FilterInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
