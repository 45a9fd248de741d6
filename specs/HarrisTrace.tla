------------------------------ MODULE HarrisTrace ------------------------------
(* Explains recordings of the real Harris code with Harris's definitions.       *)
EXTENDS Harris, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<det, l>>
Img(o) == [w |-> o.w, h |-> o.h, px |-> o.px]
Gray(o) == [w |-> o.w, h |-> o.h, type |-> 0, dt |-> 0, px |-> o.px]
One == 65536
KeyIs(k, p, lev, scale, sigma, id) ==
    /\ k.x = p[1] /\ k.y = p[2] /\ k.xs = p[1] /\ k.ys = p[2] /\ k.score = p[3]
    /\ k.level = lev /\ k.scale = scale /\ k.sigma = sigma /\ k.id = id /\ k.ori = 0
KeysOK(ks, ms) == Len(ks) = Len(ms) /\ \A i \in 1..Len(ks) : KeyIs(ks[i], ms[i], 0, One, One, i - 1)
\* the settings the scores were computed with are the detector's
Settings(e) == det[e.d].ex /\ e.sig = det[e.d].sig /\ e.k = det[e.d].k /\ e.chain = det[e.d].thr
Step(e) ==
  \/ e.op = "case" /\ det' = [d \in Dets |-> NoDet]
  \/ e.op = "max" /\ KeysOK(e.ks, First(Maxima(Img(e), e.thr), e.max)) = TRUE /\ UNCHANGED det
  \/ e.op = "score" /\ UNCHANGED det
       /\ (e.w = e.sw /\ e.h = e.sh /\ Len(e.s) = e.w * e.h
           /\ \A p \in 1..Len(e.s) : e.s[p] = Score16(e.a[p], e.b[p], e.c[p], e.kn)) = TRUE
  \/ e.op = "deriv" /\ UNCHANGED det /\ e.kept
       /\ (e.dw = e.w /\ e.dh = e.h /\ \A which \in 1..3 : DerivOK(Gray(e), which, e.kern, e.dv[which])) = TRUE
  \/ e.op = "new" /\ New(e.d)
  \/ e.op = "free" /\ Free(e.d)
  \/ e.op = "setthr" /\ SetThr(e.d, e.v)
  \/ e.op = "setsig" /\ SetSig(e.d, e.v)
  \/ e.op = "setk" /\ SetK(e.d, e.v)
  \/ e.op = "det" /\ e.kept /\ Settings(e)
       /\ LET m == First(Maxima(Img(e), e.thr), 2 * e.max)
          IN Detected(e.d, Len(m), e.max, e.adapt) /\ (KeysOK(e.ks, First(m, e.max)) /\ e.n = Len(e.ks)) = TRUE
  \/ e.op = "pyr" /\ e.kept /\ Settings(e)
       /\ LET m == Found(e.lv, e.use, e.thr, 2 * e.max)
              f == First(m, e.max)
          IN /\ Detected(e.d, Len(m), e.max, e.adapt)
             /\ (Len(e.ks) = Len(f) /\ e.n = Len(f)
                 /\ \A i \in 1..Len(f) : KeyIs(e.ks[i], f[i][1], f[i][2] - 1, e.lv[f[i][2]].scale, e.lv[f[i][2]].sigma, i - 1)) = TRUE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
