--------------------------------- MODULE Sift ---------------------------------
(* SIFT keys: detection as a function of the image and the parameters, the     *)
(* directory of remembered results, matching by descriptor distance and the    *)
(* geometry of what is detected (nx_sift_detector.c, nx_keypoint.c).           *)
(* Positions, sizes and angles are thousandths, scores millionths.             *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
Sq(v) == v * v
Near(a, b, tol) == Abs(a - b) <= tol
\* ---- remembered results: a directory maps inputs to "good" or "bad" entries
Empty == [x \in {} |-> "good"]
Has(d, i) == i \in DOMAIN d
Put(d, i, v) == [x \in DOMAIN d \cup {i} |-> IF x = i THEN v ELSE d[x]]
Del(d, i) == [x \in DOMAIN d \ {i} |-> d[x]]
\* asking for an input through a directory: outcome, new entries, directory afterwards
Ask(d, i) == IF Has(d, i) THEN [out |-> IF d[i] = "good" THEN "ok" ELSE "fatal", made |-> 0, dir |-> d]
             ELSE [out |-> "ok", made |-> 1, dir |-> Put(d, i, "good")]
Harm(d, i, kind) == IF ~Has(d, i) THEN d ELSE IF kind = "gone" THEN Del(d, i) ELSE Put(d, i, "bad")
\* ---- matching; a key is <<v1, v2, v3, v4, x, y, level, id>>, positions in quarters
RECURSIVE DistTo(_, _, _)
DistTo(a, b, k) == IF k = 0 THEN 0 ELSE Sq(a[k] - b[k]) + DistTo(a, b, k - 1)
Dist(a, b) == DistTo(a, b, 4)
\* the first nearest candidate
Nearest(q, p) == CHOOSE j \in 1..Len(p) : (\A k \in 1..Len(p) : Dist(q, p[j]) <= Dist(q, p[k])) /\ (\A k \in 1..(j - 1) : Dist(q, p[k]) > Dist(q, p[j]))
\* distance of the best of the others
Second(q, p, j) == LET S == {Dist(q, p[k]) : k \in (1..Len(p)) \ {j}} IN CHOOSE d \in S : \A x \in S : d <= x
Ratio(thr) == thr > 0 /\ thr < 8
Accepted(q, p, thr) == /\ Len(p) > 0
                       /\ (Ratio(thr) /\ Len(p) > 1) => 64 * Dist(q, p[Nearest(q, p)]) < Sq(thr) * Second(q, p, Nearest(q, p))
RECURSIVE Matches(_, _, _, _)
Matches(q, p, thr, i) == IF i > Len(q) THEN <<>>
                         ELSE (IF Accepted(q[i], p, thr) THEN <<<<i, Nearest(q[i], p)>>>> ELSE <<>>) \o Matches(q, p, thr, i + 1)
\* ---- sizes of the octaves
RECURSIVE Halved(_, _)
Halved(n, k) == IF k = 0 THEN n ELSE Halved(n \div 2, k - 1)
SizeAt(n, dbl, lev) == IF dbl THEN Halved(2 * n, lev + 1) ELSE Halved(n, lev)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
ScaleAt(lev) == IF lev < 0 THEN 500 ELSE 1000 * Pow2(lev)
\* smallest and largest sigma of a key relative to that of the octave, ratio of neighbouring levels
SigLo(n) == <<707, 841, 890, 917>>[n]
SigHi(n) == <<5657, 3364, 2829, 2595>>[n]
StepOf(n) == <<2000, 1414, 1260, 1189>>[n]
Max2(a, b) == IF a > b THEN a ELSE b
WellFormed(k, i, e) == LET w == SizeAt(e.w, e.dbl, k.lev)
                           h == SizeAt(e.h, e.dbl, k.lev)
                       IN /\ k.id = i - 1 /\ k.lev >= (IF e.dbl THEN -1 ELSE 0)
                          /\ w > (2 * e.bd) + 2 /\ h > (2 * e.bd) + 2
                          /\ k.sc = ScaleAt(k.lev)
                          /\ 0 <= k.xs /\ k.xs < 1000 * w /\ 0 <= k.ys /\ k.ys < 1000 * h
                          /\ Near(1000 * k.x, k.xs, 501) /\ Near(1000 * k.y, k.ys, 501)
                          /\ Near(k.x0, (k.xs * k.sc) \div 1000, 1 + k.sc \div 1000) /\ Near(k.y0, (k.ys * k.sc) \div 1000, 1 + k.sc \div 1000)
                          /\ e.ns * Abs(k.score) >= e.peak - 10
                          /\ k.turn
                          /\ LET s == Max2(e.s0, IF e.dbl THEN 1000 ELSE 500) IN 1000 * k.sig >= (s - 2) * (SigLo(e.ns) - 2) /\ 1000 * k.sig <= (s + 2) * (SigHi(e.ns) + 2)
                          /\ k.n2 <= 262500 /\ (k.mx < 255 => k.n2 >= 249500)
KeysOK(e) == /\ \A i \in 1..Len(e.keys) : WellFormed(e.keys[i], i, e)
             /\ \A i \in 1..(Len(e.keys) - 1) : e.keys[i].lev <= e.keys[i + 1].lev
\* ---- a round blob <<x, y, s, a>> gives a key at its centre, of its size and contrast
AtBlob(k, b) == Near(k.x0, b[1], 250 + (b[3] \div 10)) /\ Near(k.y0, b[2], 250 + (b[3] \div 10))
SizeOf(k) == (k.sig * k.sc) \div 1000
OfBlob(k, b, e) == LET st == StepOf(e.ns)
                       want == ((Sq(b[3]) \div st) * 1000) + 250000
                       amp == (((Abs(b[4]) * (st - 1000)) \div (st + 1000)) * 1000)
                   IN /\ AtBlob(k, b)
                      /\ Abs(Sq(SizeOf(k)) - want) <= want \div 4
                      /\ Abs(Abs(k.score) - amp) <= amp \div 6
                      /\ ((k.score > 0) <=> ((b[4] > 0) /= e.neg))
===============================================================================
