----------------------------- MODULE CheckersTrace ----------------------------
EXTENDS Checkers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
I(m) == Gray(m.w, m.h, m.px)
Step(e) ==
  \/ e.op = "case" /\ img' = None /\ rad' = 0 /\ lr' = <<None, None, None, None>> /\ resp' = <<>>
  \/ e.op = "radon" /\ e.kept /\ Radon(I(e.img), e.r, [i \in 1..4 |-> I(e.lr[i])], [i \in 1..2 |-> I(e.t[i])])
  \/ e.op = "score" /\ e.kept /\ e.w = lr[1].w /\ e.h = lr[1].h /\ Score(e.s, 8000)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
