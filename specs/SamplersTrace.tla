----------------------------- MODULE SamplersTrace -----------------------------
(* Recordings of the samplers explained by Samplers (which sampler stands where) *)
(* and Sfmt (the words of each stream).                                          *)
EXTENDS Samplers, Sfmt, Json, IOUtils
AllIds == 0..4
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gen
tvars == <<smp, l, gen>>
Abs(v) == IF v < 0 THEN -v ELSE v
Seed(w) == (w[1] % 32768) * M16 + w[2]    \* a name for the abstract state only
NoGen == [win |-> <<>>, idx |-> 0]
To(i, g) == gen' = [gen EXCEPT ![i] = g]
\* doubles are built from two words, the second being the high one, cut to 53 bits
Cut53(lo, hi) == LET p == <<hi[1], hi[2], lo[1], lo[2]>>
                 IN [k \in 1..4 |-> (p[k] \div 2048) + (IF k = 1 THEN 0 ELSE (p[k - 1] % 2048) * 32)]
Exact(e, n, ok(_)) == LET d == TLCEval(Draw(gen[e.i], n)) IN ok(d[1]) = TRUE /\ To(e.i, d[2]) /\ Advance(e.i, n)
\* ---- Gaussian samples: two uniform numbers u make v = 2u - 1 (in 1/16384)
V(w) == (w[1] - 32768) \div 2
RECURSIVE Texp(_, _, _, _)
\* exp(-f) for f in 1/16384, 0 <= f < 1, by its series
Texp(f, k, term, acc) == IF k > 7 THEN acc ELSE LET t == -((term * f) \div (16384 * k)) IN Texp(f, k + 1, t, acc + t)
ExpNeg(y) == \* y in 1/4096 -> exp(-y) in 1/16384
    LET k == y \div 2839  f == (y % 2839) * 4 IN IF k > 14 THEN 0 ELSE Texp(f, 1, 16384, 16384) \div Pow2(k)
S14(v1, v2) == ((v1 * v1) + (v2 * v2)) \div 16384        \* in 1/16384
Surely(v1, v2) == S14(v1, v2) < 16370
Perhaps(v1, v2) == S14(v1, v2) < 16395
PairOK(v1, v2, x1, x2) ==
    /\ Abs(((x1 \div 2) * v2) - ((x2 \div 2) * v1)) <= 40000 + 2 * (Abs(x1) + Abs(x2))
    /\ (Abs(v1) > 4 => (x1 > 0 <=> v1 > 0)) /\ (Abs(v2) > 4 => (x2 > 0 <=> v2 > 0))
    /\ LET r2 == (x1 * x1) + (x2 * x2) IN Abs(ExpNeg(r2 \div 8192) - S14(v1, v2)) <= 80
OneOK(v1, v2, x) ==
    /\ (Abs(v1) > 4 => (x > 0 <=> v1 > 0))
    /\ (Abs(v1) > 3000 =>
          LET s == S14(v1, v2)
              r2 == ((((x * x) \div 4096) * s) \div (((v1 * v1) \div 16384)))      \* in 1/4096
          IN Abs(ExpNeg(r2 \div 2) - s) <= 250)
\* the generators possible after explaining xs from position k on
RECURSIVE Gauss(_, _, _)
Gauss(g, xs, k) ==
    IF k > Len(xs) THEN {g}
    ELSE LET d == Draw(g, 2)
             v1 == V(d[1][1])  v2 == V(d[1][2])
             fits == IF k < Len(xs) THEN PairOK(v1, v2, xs[k], xs[k + 1]) ELSE OneOK(v1, v2, xs[k])
         IN (IF Perhaps(v1, v2) /\ fits THEN Gauss(d[2], xs, k + 2) ELSE {})
            \cup (IF Surely(v1, v2) THEN {} ELSE Gauss(d[2], xs, k))
RECURSIVE Skip(_, _, _)
Skip(g, n, k) == IF k > n THEN {g}
                 ELSE LET d == Draw(g, 2)
                          v1 == V(d[1][1])  v2 == V(d[1][2])
                      IN (IF Perhaps(v1, v2) THEN Skip(d[2], n, k + 2) ELSE {}) \cup (IF Surely(v1, v2) THEN {} ELSE Skip(d[2], n, k))
Step(e) ==
  \/ e.op = "case" /\ smp' = [i \in Ids |-> None] /\ gen' = [i \in Ids |-> NoGen]
  \/ e.op = "new" /\ Make(e.i, Seed(e.seed)) /\ To(e.i, TLCEval(Fresh(e.seed)))
  \/ e.op = "seed" /\ Reseed(e.i, Seed(e.seed)) /\ To(e.i, TLCEval(Fresh(e.seed)))
  \/ e.op = "free" /\ Discard(e.i) /\ To(e.i, NoGen)
  \/ e.op \in {"u32", "fill32"} /\ Exact(e, Len(e.v), LAMBDA w : w = e.v)
  \/ e.op \in {"u64", "fill64"} /\ Exact(e, 2 * Len(e.v), LAMBDA w : \A k \in 1..Len(e.v) : e.v[k] = w[2 * k] \o w[2 * k - 1])
  \/ e.op = "fs" /\ e.in /\ Exact(e, Len(e.v), LAMBDA w : \A k \in 1..Len(e.v) : Abs(e.v[k] - (w[k][1] * 16384 + (w[k][2] \div 4))) <= (IF w[k][1] = 65535 /\ w[k][2] >= 65535 - 160 THEN 66 ELSE 40))
  \/ e.op = "fd" /\ e.in /\ Exact(e, 2 * Len(e.v), LAMBDA w : \A k \in 1..Len(e.v) : e.v[k] = Cut53(w[2 * k - 1], w[2 * k]))
  \/ e.op \in {"gs", "gd"} /\ e.past /\ smp[e.i].ex
       /\ (e.sg = 0 => \A k \in 1..Len(e.v) : e.v[k] = 0)
       /\ \E g \in (IF e.sg = 0 THEN Skip(gen[e.i], Len(e.v), 1) ELSE Gauss(gen[e.i], e.v, 1)) : To(e.i, g)
       /\ Advance(e.i, Len(e.v))
TraceInit == SInit /\ l = 1 /\ gen = [i \in Ids |-> NoGen]
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
