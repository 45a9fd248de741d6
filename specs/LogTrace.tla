------------------------------- MODULE LogTrace --------------------------------
EXTENDS Log, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<verb, handler, tty, shown, over, l>>
\* a fatal error as the driver saw it: by whom it was handled, with what, and how the program went on
FatalSeen(e, ps) ==
    /\ Fatal(e.tag, e.fn, e.line, ps, e.by, e.text, e.shows)
    /\ IF e.by = "default" THEN e.status = 157 ELSE e.htag = e.tag /\ e.hfn = e.fn /\ e.hline = e.line
Step(e) ==
  \/ e.op = "case" /\ verb' = 1 /\ handler' = "default" /\ tty' = FALSE /\ shown' = <<>> /\ over' = "no"
  \/ e.op = "tty" /\ Terminal(e.tty)
  \/ e.op = "verb" /\ Verbosity(e.v) /\ e.shows = <<>>
  \/ e.op = "handler" /\ Handle(e.h) /\ e.shows = <<>>
  \/ e.op = "say" /\ Say(e.level, e.tag, e.fn, e.line, e.parts, e.shows) /\ e.by = "none"
  \/ e.op = "fatal" /\ FatalSeen(e, e.parts)
  \/ e.op = "assert" /\ Holds(e.kind, e.a, e.b, e.c) /\ e.by = "none" /\ e.shows = <<>> /\ UNCHANGED lvars
  \/ e.op = "assert" /\ ~Holds(e.kind, e.a, e.b, e.c) /\ FatalSeen(e, e.parts)
  \/ e.op = "resume" /\ Resume
TraceInit == LogInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
