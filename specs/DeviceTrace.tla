------------------------------ MODULE DeviceTrace ------------------------------
EXTENDS Device, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cap, file, stream, blocks, l>>
OkOut(ok) == IF ok THEN "ok" ELSE "fatal"
Step(e) ==
  \/ e.op = "case" /\ cap' = 0 /\ file' = 0 /\ stream' = Closed /\ blocks' = [i \in Ids |-> 0]
  \/ e.op = "limit" /\ Limit(e.c)
  \/ e.op = "open" /\ Open(e.buf) /\ e.out = "ok"
  \* primitive writes end fatally when they do not succeed
  \/ e.op = "put" /\ file' = e.size /\ e.out \in {"ok", "fatal"} /\ Put(e.n, e.out = "ok") /\ e.pre
  \/ e.op = "close" /\ file' = e.size /\ e.out = Report(e.kind, e.out = "ok") /\ Close(e.out = "ok") /\ e.pre
  \* whole values; n is what they take on a device with room
  \/ e.op = "save" /\ file' = e.size /\ Save(e.n, e.kind, e.out) /\ e.pre /\ (e.out = "ok" => e.back)
  \/ e.op = "write" /\ file' = e.size /\ Write(e.n, e.kind, e.buf, e.out, e.close = "ok") /\ e.pre
  \* places that can not be opened
  \/ e.op = "nowhere" /\ e.out = Report(e.kind, FALSE) /\ UNCHANGED <<dvars, mvars>>
  \/ e.op = "noread" /\ e.out \in {"refused", "fatal"} /\ (e.kind = "x" => e.out = "fatal") /\ UNCHANGED <<dvars, mvars>>
  \* memory.  intact: the other blocks are as the program left them
  \/ e.op = "malloc" /\ Request(e.id, e.k, e.e, e.kind, e.out) /\ e.intact
  \/ e.op = "calloc" /\ Request(e.id, e.k * e.k2, e.e + e.e2, e.kind, e.out) /\ e.intact /\ (e.out = "ok" => e.zero)
  \/ e.op = "aligned" /\ Request(e.id, e.k, e.e, e.kind, e.out) /\ e.intact /\ (e.out = "ok" => e.at)
  \/ e.op = "realloc" /\ Request(e.id, e.k, e.e, "x", e.out) /\ e.intact
       /\ e.kept = IF e.out = "ok" THEN Min(blocks[e.id], blocks'[e.id]) ELSE blocks[e.id]
  \/ e.op = "free" /\ Release(e.id) /\ e.intact
  \* growing storage of `cap` elements, `used` of them in use, so that `need` fit
  \/ e.op = "ensure" /\ UNCHANGED <<dvars, mvars>> /\ e.out = "ok" /\ e.kept = e.used
       /\ e.newcap >= e.need /\ e.newcap >= e.cap /\ (e.cap >= e.need => e.newcap = e.cap)
TraceInit == DeviceInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
