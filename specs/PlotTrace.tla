------------------------------- MODULE PlotTrace -------------------------------
EXTENDS Plot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<plots, l>>
Step(e) ==
  \/ e.op = "case" /\ plots' = [p \in Plots |-> NoPlot]
  \/ e.op = "new" /\ New(e.p, e.piped) /\ (~e.piped => Follows(e.p, e.cs))
  \/ e.op = "free" /\ (plots[e.p].piped => WholeScript(e.p, e.cs) /\ e.persist = e.asked) /\ (~plots[e.p].piped => e.cs = <<>> /\ e.open) /\ Free(e.p)
  \* a command of the caller's: its text, formatted
  \/ e.op = "command" /\ e.text = e.expect /\ UNCHANGED plots /\ plots[e.p].ex
  \/ e.op = "call" /\ Call(e.p, e.c) /\ (~plots[e.p].piped => Follows(e.p, e.cs)) /\ e.others
TraceInit == PlotInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
