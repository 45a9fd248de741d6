------------------------------ MODULE GraphTrace ------------------------------
EXTENDS Graph, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<nv, w, l>>

\* matrix weights row by row; adjacency lists as sequences of <<vertex, weight>>; lookups as
\* the list search answers them for every vertex pair (row by row)
Shows(e) == /\ e.mv = nv' /\ e.lv = nv'
            /\ e.mat = Matrix'
            /\ Len(e.lst) = nv'
            /\ \A u \in Vertex(nv') :
                 /\ {e.lst[u + 1][i] : i \in 1..Len(e.lst[u + 1])} = Lists'[u]
                 /\ Len(e.lst[u + 1]) = Cardinality(Lists'[u])
            /\ e.found = Matrix'
            /\ e.me = EdgeCount' /\ e.le = EdgeCount'
            /\ e.names = e.want
Step(e) ==
  \/ e.op = "case" /\ nv' = 0 /\ w' = [p \in {} |-> ABSENT]
  \/ e.op = "new" /\ New(e.n) /\ Shows(e)
  \/ e.op = "ins" /\ Insert(e.u, e.v, e.x) /\ Shows(e)
  \/ e.op = "end" /\ e.heap = 0 /\ UNCHANGED gvars
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
