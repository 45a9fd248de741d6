---------------------------- MODULE MemBlockTrace -----------------------------
(* Explains a recording of the real library with MemBlock's actions.  Every    *)
(* event carries the arguments and the projection of the handles it touched,   *)
(* plus the full content of every buffer the caller still holds.               *)
EXTENDS MemBlock, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, lent, l>>

Same(spec, seen) == /\ Len(spec) = Len(seen)
                    /\ \A i \in 1..Len(spec) : spec[i] = UNK \/ spec[i] = seen[i]

\* what the caller can see of handle s after the call
ShowsHandle(s, p) ==
    LET x == h'[s]
    IN /\ x.ex = p.ex
       /\ x.ex => /\ x.size = p.size /\ x.cap = p.cap
                  /\ (x.kind = "heap") = p.own
                  /\ (x.kind = "none") = (p.ref = 0)
                  /\ (x.kind = "lent") = (p.ref > 0)
                  /\ (x.kind = "lent") => x.buf = p.ref
                  /\ Same(IF x.kind = "lent" THEN Take(lent'[x.buf], x.size)
                          ELSE IF x.kind = "heap" THEN x.data ELSE <<>>, p.data)

Shows(e) == /\ \A i \in 1..Len(e.hs) : ShowsHandle(e.hs[i].s, e.hs[i])
            /\ \A i \in 1..Len(e.lent) : Same(lent'[e.lent[i].b], e.lent[i].data)

Cap(e, s) == LET k == CHOOSE i \in 1..Len(e.hs) : e.hs[i].s = s IN e.hs[k].cap

Step(e) ==
  \/ /\ e.op = "case"  /\ h' = [s \in Slots |-> None] /\ lent' = [b \in Bufs |-> <<>>]
  \/ /\ e.op = "alloc"   /\ Alloc(e.s) /\ Shows(e)
  \/ /\ e.op = "new"     /\ NewSized(e.s, e.n, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "newr"    /\ NewReserved(e.s, e.n, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "reserve" /\ Reserve(e.s, e.n, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "resize"  /\ Resize(e.s, e.n, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "release" /\ Release(e.s) /\ Shows(e)
  \/ /\ e.op = "lend"    /\ WrapLent(e.s, e.b, e.content, e.n) /\ Shows(e)
  \/ /\ e.op = "give"    /\ WrapGiven(e.s, e.content, e.n) /\ Shows(e)
  \/ /\ e.op = "swap"    /\ Swap(e.s, e.t) /\ Shows(e)
  \/ /\ e.op = "copy"    /\ Copy(e.s, e.t, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "copynew" /\ CopyNew(e.s, e.t, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "store"   /\ Store(e.s, e.n, e.v) /\ Shows(e)
  \/ /\ e.op = "zero"    /\ SetZero(e.s) /\ Shows(e)
  \/ /\ e.op = "push"    /\ PushBack(e.s, e.v, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "free"    /\ Free(e.s) /\ Shows(e)
  \* after the caller freed every handle: nothing of the library's memory is left
  \/ /\ e.op = "end" /\ \A s \in Slots : ~h[s].ex
     /\ e.heap = 0 /\ UNCHANGED mvars
     /\ \A i \in 1..Len(e.lent) : Same(lent[e.lent[i].b], e.lent[i].data)

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
