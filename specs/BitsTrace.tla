------------------------------- MODULE BitsTrace -------------------------------
EXTENDS Bits, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<n, bits, l>>
Shows(e) == /\ Len(e.bytes) = NBytes(n')
            /\ \A b \in 0..(NBytes(n') - 1) : Known(b)' => e.bytes[b + 1] = ByteAt(b)'
            /\ Len(e.get) = n'
            /\ \A i \in 0..(n' - 1) : bits'[i] # UNKNOWN => e.get[i + 1] = bits'[i]
Step(e) ==
  \/ e.op = "case" /\ n' = 0 /\ bits' = [i \in {} |-> 0]
  \/ e.op = "new" /\ New(e.n) /\ Shows(e)
  \/ e.op = "zero" /\ Zero /\ Shows(e)
  \/ e.op = "set" /\ Set(e.i, e.v) /\ Shows(e)
  \* word functions; words are sequences of 16-bit pieces
  \/ e.op = "count32" /\ Len(e.w) = 2 /\ e.r = BitCount(e.w) /\ UNCHANGED bvars
  \/ e.op = "count64" /\ Len(e.w) = 4 /\ e.r = BitCount(e.w) /\ UNCHANGED bvars
  \/ e.op = "rotr" /\ e.r = Rotr(e.w, e.k) /\ UNCHANGED bvars
  \/ e.op = "split" /\ e.r = BytesOf(e.w) /\ e.guard /\ UNCHANGED bvars
  \/ e.op = "compose" /\ e.r = WordOf(e.b) /\ UNCHANGED bvars
  \/ e.op = "end" /\ UNCHANGED bvars
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
