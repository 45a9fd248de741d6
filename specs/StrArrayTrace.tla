----------------------------- MODULE StrArrayTrace -----------------------------
EXTENDS StrArray, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NullVal == <<0 - 1>>
VARIABLE l
tvars == <<arr, st, l>>
Shows(e) == \A k \in 1..Len(e.arrs) :
              LET x == e.arrs[k] IN IF x.ex THEN arr'[x.a] # NONE /\ arr'[x.a] = x.list ELSE arr'[x.a] = NONE
PosOK(e) == st'.pos = UNPOS \/ e.pos = st'.pos
Step(e) ==
  \/ e.op = "case" /\ arr' = [a \in Arrays |-> NONE] /\ st' = Fresh
  \/ e.op = "new" /\ Create(e.a, Resized(<<>>, e.n)) /\ Shows(e)
  \/ e.op = "newlist" /\ Create(e.a, e.list) /\ Shows(e)
  \/ e.op = "free" /\ Drop(e.a) /\ Shows(e)
  \/ e.op = "resize" /\ Resize(e.a, e.n) /\ Shows(e)
  \/ e.op = "set" /\ Set(e.a, e.i, e.s) /\ Shows(e)
  \/ e.op = "setself" /\ Set(e.a, e.i, arr[e.a][e.j]) /\ Shows(e)
  \/ e.op = "setfself" /\ arr[e.a][e.j] # NULLS /\ Set(e.a, e.i, arr[e.a][e.j] \o e.s) /\ Shows(e)
  \/ e.op = "append" /\ Append1(e.a, e.s) /\ Shows(e) /\ e.r = Len(arr[e.a])
  \/ e.op = "appendself" /\ Append1(e.a, arr[e.a][e.j]) /\ Shows(e) /\ e.r = Len(arr[e.a])
  \/ e.op = "find" /\ Find(e.a, e.s) /\ e.r = FindIdx(e.a, e.s) - 1 /\ Shows(e)
  \/ e.op = "write" /\ Write(e.a, e.pos) /\ Shows(e)
  \/ e.op = "rewind" /\ Rewind /\ PosOK(e)
  \/ e.op = "cut" /\ Truncate(e.k) /\ PosOK(e)
  \/ e.op = "read" /\ e.res = "ok" /\ (Read(e.a) \/ ReadNew(e.a)) /\ PosOK(e) /\ Shows(e)
  \/ e.op = "read" /\ e.res = "fail" /\ ReadFails(e.a)
  \/ e.op = "end" /\ e.heap = 0 /\ UNCHANGED svars
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
