----------------------------- MODULE PyramidTrace ----------------------------
(* Explains a recording of the real builders with Pyramid's actions.           *)
EXTENDS Pyramid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cfgs, pyrs, l>>
CfgOf(e) == CASE e.k = "fast" -> Fast(e.n, e.s0) [] e.k = "fine" -> Fine(e.n \div e.steps, e.steps, e.s0)
              [] OTHER -> Scaled(e.n, e.p, e.q, e.s0)
X(e) == [w |-> e.w, h |-> e.h, type |-> 0, dt |-> e.dt, px |-> e.px]
\* every pyramid that exists is the one last built
Shows(e) == /\ \A p \in Pyrs : pyrs'[p].ex = (\E i \in 1..Len(e.sums) : e.sums[i].p = p)
            /\ \A i \in 1..Len(e.sums) : pyrs'[e.sums[i].p].sum = e.sums[i].sum
Step(e) ==
  \/ e.op = "case" /\ cfgs' = [b \in Builders |-> NoCfg] /\ pyrs' = [p \in Pyrs |-> NoPyr]
  \/ e.op = "set" /\ Configure(e.b, CfgOf(e)) /\ Shows(e)
  \/ e.op = "build" /\ e.via \notin {"vg", "vgre"} /\ e.kept /\ Build(e.b, e.p, X(e), e.lv, e.ks, e.sum) /\ Shows(e)
  \/ e.op = "build" /\ e.via \in {"vg", "vgre"} /\ e.kept
       /\ (GeometryOK(cfgs[e.b], e.w, e.h, e.lv) /\ PixelsFollow(cfgs[e.b], X(e), e.lv, e.ks)) = TRUE
       /\ UNCHANGED pvars /\ Shows(e)
  \/ e.op = "init" /\ Prepare(e.b, e.p, e.w, e.h, e.lv, e.sum) /\ Shows(e)
  \/ e.op = "base" /\ e.kept /\ e.levels = e.n /\ PutBase(e.p, e.n, X(e), e.s0, e.lv[1], e.sum) /\ Shows(e)
  \/ e.op = "clear" /\ e.levels = 0 /\ e.none /\ Clear(e.p, e.sum) /\ Shows(e)
  \/ e.op = "drop" /\ Drop(e.p) /\ Shows(e)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================
