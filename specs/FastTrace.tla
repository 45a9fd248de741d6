------------------------------ MODULE FastTrace ------------------------------
(* Explains recordings of the real FAST code with Fast's definitions.          *)
EXTENDS Fast, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<det, l>>
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE x * Pow(x, e - 1)
P3 == TLCEval([i \in 0..16 |-> Pow(3, i)])
P2 == TLCEval([i \in 0..16 |-> Pow(2, i)])
Decode(r) == [k \in 1..16 |-> (r \div P3[k - 1]) % 3]
\* masks (as sets of ring places) that hold an arc
RECURSIVE CountOf(_, _)
\* number of symbolic corner rings of sign v whose first digits are pre
Place(s, k) == P2[(s - 1 + k) % 16]        \* bit of the k-th place after s
RECURSIVE Spread(_, _, _)
Spread(s, x, k) == IF k = 7 THEN 0 ELSE (((x \div P2[k]) % 2) * Place(s, 9 + k)) + Spread(s, x, k + 1)
RECURSIVE ArcBits(_, _)
ArcBits(s, k) == IF k = 9 THEN 0 ELSE Place(s, k) + ArcBits(s, k + 1)
ArcMasks == TLCEval(UNION {{ArcBits(s, 0) + Spread(s, x, 0) : x \in 0..127} : s \in 1..16})
Bit(m, k) == (m \div P2[k - 1]) % 2
CountOf(S, pre) == IF S = {} THEN 0
    ELSE LET m == CHOOSE m \in S : TRUE
         IN CountOf(S \ {m}, pre) + P2[Cardinality({k \in (Len(pre) + 1)..16 : Bit(m, k) = 0})]
Expected(pre) == LET of(v) == {m \in ArcMasks : \A k \in 1..Len(pre) : (Bit(m, k) = 1) = (pre[k] = v)}
                 IN CountOf(of(1), pre) + CountOf(of(2), pre)
\* the accepted rings among all rings starting with pre: strictly increasing, every one a corner, none missing
ExactlyCorners(pre, acc) ==
    /\ \A i \in 1..(Len(acc) - 1) : acc[i] < acc[i + 1]
    /\ \A i \in 1..Len(acc) : LET t == Decode(acc[i]) IN Symbolic(t) /\ \A k \in 1..Len(pre) : t[k] = pre[k]
    /\ Len(acc) = Expected(pre)

Img(o) == [w |-> o.w, h |-> o.h, px |-> o.px]
One == 65536
Keys(ks, ps, lev, scale, sigma, id0) ==
    /\ Len(ks) = Len(ps)
    /\ \A i \in 1..Len(ks) : KeyIs(ks[i], ps[i], lev, scale, sigma, id0 + i - 1)
RoomFor(e) == e.max
Shown(e) == \A i \in 1..Len(e.ds) : det'[e.ds[i][1]].ex /\ det'[e.ds[i][1]].thr = e.ds[i][2]
LevelsOK(ks, lv, exp, thr, r) ==
    /\ Len(ks) = Len(exp)
    /\ \A i \in 1..Len(ks) :
         LET q == exp[i][1]
             v == exp[i][2]
         IN /\ KeyIs(ks[i], q, v - 1, lv[v].scale, lv[v].sigma, i - 1)
            /\ ks[i].score = q[3]
            /\ OriOK(lv[v], r, ks[i])
Step(e) ==
  \/ e.op = "case" /\ det' = [d \in Dets |-> NoDet]
  \/ e.op = "rings" /\ ExactlyCorners(e.pre, e.acc) = TRUE /\ e.odd = 0 /\ UNCHANGED det
  \/ e.op = "detect" /\ e.kept /\ UNCHANGED det
       /\ LET cs == Plain(Img(e), e.b, e.max)
              sc == Scored(Img(e), cs)
          IN (Keys(e.ks, cs, 0, One, 0, 0) /\ Len(e.sc) = Len(cs)
              /\ \A i \in 1..Len(cs) : e.ks[i].c = 10000 /\ e.ks[i].s = 0 /\ e.ks[i].score = 0 /\ e.sc[i] = sc[i][3]) = TRUE
  \/ e.op = "supp" /\ UNCHANGED det
       /\ LET s == First(Survivors(e.in), e.max)
          IN (Len(e.ks) = Len(s) /\ \A i \in 1..Len(s) : e.ks[i].x = s[i][1] /\ e.ks[i].y = s[i][2]
                                      /\ e.ks[i].score = s[i][3] /\ e.ks[i].id = i - 1) = TRUE
  \/ e.op = "new" /\ New(e.d) /\ Shown(e)
  \/ e.op = "free" /\ Free(e.d) /\ Shown(e)
  \/ e.op = "thr" /\ SetThreshold(e.d, e.b) /\ Shown(e)
  \/ e.op = "ori" /\ SetOri(e.d, e.r) /\ Shown(e)
  \/ e.op = "adapt" /\ Adapt(e.d, e.n, e.max) /\ Shown(e)
  \/ e.op = "run" /\ Detect(e.d) /\ e.kept /\ Shown(e)
       /\ LET s == Strong(Img(e), det[e.d].thr, e.work, e.max)
          IN (Keys(e.ks, s, 0, One, 0, 0)
              /\ \A i \in 1..Len(s) : e.ks[i].score = s[i][3] /\ OriOK(Img(e), det[e.d].ori, e.ks[i])) = TRUE
  \/ e.op = "pyr" /\ Detect(e.d) /\ e.kept /\ Shown(e)
       /\ LevelsOK(e.ks, e.lv, Levels(e.lv, UsedLevels(Len(e.lv), e.use), det[e.d].thr, e.work, e.max), det[e.d].thr, det[e.d].ori) = TRUE
  \/ e.op = "cpyr" /\ UNCHANGED det /\ e.kept
       /\ LevelsOK(e.ks, e.lv, Levels(e.lv, UsedLevels(Len(e.lv), e.use), e.b, e.work, e.max), e.b, 0) = TRUE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================
