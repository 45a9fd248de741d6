------------------------------- MODULE ShaTrace -------------------------------
EXTENDS Sha256, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  \/ e.op = "case"
  \/ e.op = "sha" /\ LET d == Digest(FlattenSeq(e.chunks)) IN e.hash = d /\ e.hex = Hex(d)
  \* the gatherer on its own: successive requests of the given sizes hand out the concatenation in order
  \/ e.op = "gather" /\ LET m == FlattenSeq(e.chunks)
                            Least(a, b) == IF a < b THEN a ELSE b
                            from(i) == Least(Len(m), FoldLeft(LAMBDA a, k : a + e.req[k], 0, [k \in 1..(i - 1) |-> k]))
                        IN /\ Len(e.got) = Len(e.req)
                           /\ \A i \in 1..Len(e.req) :
                                e.got[i] = SubSeq(m, from(i) + 1, Least(Len(m), from(i) + e.req[i]))
  \/ e.op = "end"
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
