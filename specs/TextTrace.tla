------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, keys          \* keypoint records written, and how many were read
tvars == <<data, pos, l, keys>>
KeySize == 44
Min(a, b) == IF a < b THEN a ELSE b
\* outcomes of a decoder: the text, or the fatal end of the call
Decoded(e, r) == IF r = FATAL THEN e.out = "fatal" ELSE e.out = "ok" /\ e.r = r
Same == UNCHANGED <<data, pos, keys>>
Step(e) ==
  \/ e.op = "case" /\ data' = <<>> /\ pos' = 0 /\ keys' = <<>>
  \/ e.op = "enc" /\ Same /\ e.rd = Readable(e.s) /\ e.dq = DoubleQuoted(e.s) /\ e.rc = 0
       /\ e.back = e.s /\ e.dback = e.s
  \/ e.op = "null" /\ Same /\ e.rd = <<110, 117, 108, 108>> /\ e.dq = <<>> /\ e.rc = 0 /\ e.nul
  \/ e.op = "unread" /\ Same /\ Decoded(e, Unreadable(SubSeq(e.t, 1, e.n)))
  \/ e.op = "undub" /\ Same /\ Decoded(e, Undub(SubSeq(e.t, 1, e.n)))
  \/ e.op = "fmt" /\ Same /\ e.r = e.s /\ e.r2 = e.want2
  \/ e.op = "dup" /\ Same /\ e.r = e.s /\ e.own /\ e.re = e.s2 /\ e.nul
  \/ e.op = "hex" /\ Same /\ e.r = Hex(e.b)
  \/ e.op = "gather" /\ Same
       /\ \A k \in 1..Len(e.steps) :
            LET st == e.steps[k]
                rest == RestOf(e.ps, st.p, st.o)
                m == Min(st.n, Len(rest))
            IN st.got = m /\ st.r = SubSeq(rest, 1, m) /\ RestOf(e.ps, st.np, st.no) = SubSeq(rest, m + 1, Len(rest)) /\ st.guard
  \/ e.op = "raw" /\ Put(e.s) /\ UNCHANGED keys
  \/ e.op = "strwrite" /\ e.rc = 0 /\ Put(Record(e.s)) /\ UNCHANGED keys /\ e.size = Len(data')
  \/ e.op = "strread" /\ UNCHANGED keys
       /\ IF GoodRecord THEN e.out = "ok" /\ e.rc = 0 /\ e.r = AsString(RecordText) /\ ReadRecord
          ELSE e.out \in {"refused", "fatal"} /\ pos' = Len(data) /\ UNCHANGED data
  \/ e.op = "getline" /\ UNCHANGED keys
       /\ IF HasLine THEN e.rc = Len(LineOf) /\ e.r = LineOf /\ ReadLine ELSE e.rc = -1 /\ UNCHANGED strvars
       /\ e.term
  \/ e.op = "rewind" /\ Rewind /\ UNCHANGED keys
  \/ e.op = "cut" /\ Cut(e.n) /\ UNCHANGED keys
  \* keypoint records: complete records come back as they were, the rest is not counted
  \/ e.op = "keys" /\ Same /\ e.wrote = Len(e.ks) /\ e.got = Min(e.ask, Min(Len(e.ks) * KeySize, e.cut) \div KeySize)
       /\ e.back = SubSeq(e.ks, 1, e.got) /\ e.guard
TraceInit == StreamInit /\ l = 1 /\ keys = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
