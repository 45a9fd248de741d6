------------------------------- MODULE UsacTrace -------------------------------
(* Recordings of nx_usac: every call of a configured function is one step of   *)
(* Usac; and of the homography estimators that draw minimal samples.           *)
EXTENDS Usac, TLC, Json, IOUtils
Low == -1000000
Nan == 1000000000
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<uvars, l>>
\* the estimated model explains every true correspondence and no outlier
Perm(s) == {s[i] : i \in 1..Len(s)} = 0..(Len(s) - 1)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Count(s) == Cardinality({i \in 1..Len(s) : s[i] = 1})
\* one exact minimal sample suffices when every correspondence is right
Determined(e) == e.kind \in {0, 4} /\ e.N >= 4 /\ e.it > 0 /\ (e.nin = e.N \/ e.it >= 400)
Est(e) ==
    /\ e.kept /\ Len(e.id) = e.N /\ Perm(e.id)
    /\ (e.N < 4 => e.got = 0)
    /\ (e.N >= 4 => Sorted(e.cost))
    /\ (e.got > 0 => /\ e.got = Count(e.mark)
                     /\ \A i \in 1..e.N : (e.dist[i] < 990 => e.mark[i] = 1) /\ (e.dist[i] > 1010 => e.mark[i] = 0))
    /\ (Determined(e) => e.got = e.nin /\ \A i \in 1..e.N : e.mark[i] = e.truth[i])
Step(e) ==
  \/ e.op = "case" /\ pc \in {"idle"} /\ UNCHANGED uvars
  \/ e.op = "run" /\ Start
  \/ e.op = "term" /\ Term(e.b, e.s, e.r)
  \/ e.op = "sample" /\ Sample
  \/ e.op = "scheck" /\ e.same /\ SCheck(e.r)
  \/ e.op = "fit" /\ e.same /\ Fit(e.ms)
  \/ e.op = "mcheck" /\ e.same /\ MCheck(e.m, e.r)
  \/ e.op = "score" /\ ((pc = "score" /\ e.same /\ Score(e.m, e.v)) \/ (pc = "lscore" /\ e.same /\ LScore(e.m, e.v)) \/ (pc = "gscore" /\ GScore(e.m, e.v)))
  \/ e.op = "degen" /\ e.same /\ Degen(e.m, e.r)
  \/ e.op = "local" /\ e.same /\ Local(e.m, e.r, e.n)
  \/ e.op = "global" /\ Global(e.m, e.n)
  \/ e.op = "ret" /\ e.past /\ Return(e.b, e.s)
  \/ e.op = "est" /\ pc = "idle" /\ Est(e) = TRUE /\ UNCHANGED uvars
TraceInit == Idle /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
