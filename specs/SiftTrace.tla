------------------------------- MODULE SiftTrace -------------------------------
EXTENDS Sift, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, known, dirs
\* known: result of every input seen in this case; dirs: the directories' entries
Dir(n) == IF n \in DOMAIN dirs THEN dirs[n] ELSE Empty
SetDir(n, d) == [x \in DOMAIN dirs \cup {n} |-> IF x = n THEN d ELSE dirs[x]]
Detect(e) == LET a == Ask(Dir(e.how), e.inp)
                 out == IF e.cached THEN a.out ELSE "ok"
             IN /\ e.kept /\ e.old /\ e.out = out
                /\ e.made = (IF e.cached THEN a.made ELSE 0)
                /\ (out = "ok" => /\ e.n = Len(e.keys) /\ e.cap2 >= e.n /\ e.cap2 >= e.cap
                                  /\ KeysOK(e)
                                  /\ (e.inp \in DOMAIN known => known[e.inp] = e.res))
                /\ dirs' = (IF e.cached THEN SetDir(e.how, a.dir) ELSE dirs)
                /\ known' = (IF out = "ok" /\ e.inp \notin DOMAIN known THEN [x \in DOMAIN known \cup {e.inp} |-> IF x = e.inp THEN e.res ELSE known[x]] ELSE known)
Damage(e) == dirs' = SetDir(e.how, Harm(Dir(e.how), e.inp, e.kind)) /\ UNCHANGED known
\* what a match says about its two keys
MatchOf(q, p) == LET s(k) == ScaleAt(k[7])
                     at(v, k) == (v * s(k)) \div 4
                 IN <<at(q[5], q), at(q[6], q), at(p[5], p), at(p[6], p), Dist(q, p), (3 * s(q)) \div 10, (3 * s(p)) \div 10, q[8], p[8], 0>>
Match(e) == LET a == Ask(Dir(e.how), e.inp)
                out == IF e.cached THEN a.out ELSE "ok"
                m == Matches(e.q, e.p, e.thr, 1)
            IN /\ e.kept /\ e.old /\ e.out = out /\ e.made = (IF e.cached THEN a.made ELSE 0)
               /\ (out = "ok" => /\ e.got = Len(m) /\ Len(e.m) = Len(m) /\ e.rest
                                 /\ \A i \in 1..Len(m) : e.m[i] = MatchOf(e.q[m[i][1]], e.p[m[i][2]]))
               /\ dirs' = (IF e.cached THEN SetDir(e.how, a.dir) ELSE dirs) /\ UNCHANGED known
File(e) == /\ e.out = (IF e.kind = "ok" THEN "ok" ELSE "fatal")
           /\ e.size = 8 + (Len(e.q) * (44 + 128))
           /\ (e.kind = "ok" => e.n = Len(e.q) /\ e.r = e.q /\ e.same /\ e.cap2 >= e.n /\ e.cap2 >= e.cap)
\* ---- two detections of related inputs
Same(k, m) == [k EXCEPT !.id = 0] = [m EXCEPT !.id = 0]
RECURSIVE Within(_, _, _, _)
Within(b, a, i, j) == IF i > Len(b) THEN TRUE ELSE IF j > Len(a) THEN FALSE ELSE IF Same(b[i], a[j]) THEN Within(b, a, i + 1, j + 1) ELSE Within(b, a, i, j + 1)
Spot(k) == <<k.x, k.y, k.xs, k.ys, k.lev, k.sig>>
Spots(a, sign) == {Append(Spot(a[i]), sign * a[i].score) : i \in 1..Len(a)}
Relation(e) == CASE e.kind = "peak" -> /\ Within(e.b, e.a, 1, 1)
                                       /\ \A i \in 1..Len(e.b) : e.ns * Abs(e.b[i].score) >= e.peak - 10
                                       /\ \A i \in 1..Len(e.a) : e.ns * Abs(e.a[i].score) >= 3 * e.peak => \E j \in 1..Len(e.b) : Same(e.a[i], e.b[j])
                 [] e.kind = "edge" -> Within(e.b, e.a, 1, 1)
                 [] e.kind = "border" -> Within(e.b, e.a, 1, 1)
                 [] e.kind = "neg" -> Spots(e.a, 1) = Spots(e.b, -1)
                 [] e.kind = "mul" -> /\ Len(e.a) = Len(e.b)
                                      /\ \A i \in 1..Len(e.a) : Same([e.a[i] EXCEPT !.score = 0], [e.b[i] EXCEPT !.score = 0]) /\ Near(2 * e.a[i].score, e.b[i].score, 2)
                 [] OTHER -> FALSE
Blob(e) == KeysOK(e) /\ \A b \in 1..Len(e.blobs) : \E i \in 1..Len(e.keys) : OfBlob(e.keys[i], e.blobs[b], e)
\* ---- one blob on a slope: orientation and layout of the descriptor
RECURSIVE Total(_, _)
Total(d, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN d[j] + Total(d, S \ {j})
Cell(d, row, col, bins) == Total(d, {(((row * 4) + col) * 8) + b + 1 : b \in bins})
Bins == 0..7
Col(d, c) == Cell(d, 0, c, Bins) + Cell(d, 1, c, Bins) + Cell(d, 2, c, Bins) + Cell(d, 3, c, Bins)
Row(d, r) == Cell(d, r, 0, Bins) + Cell(d, r, 1, Bins) + Cell(d, r, 2, Bins) + Cell(d, r, 3, Bins)
Grows(f(_), d, s) == IF s > 0 THEN f(3) > f(0) ELSE f(3) < f(0)
Along(e) == (2 * (e.h1 * (Sq(e.gx) - Sq(e.gy)))) + (2 * (e.gx * (e.gy * e.h2)))
Across(e) == (e.h2 * (Sq(e.gx) - Sq(e.gy))) - (4 * (e.h1 * (e.gx * e.gy)))
Oriented(k, e) == LET g2 == Sq(e.gx) + Sq(e.gy)
                      dot == (k.co * e.gx) - (k.so * e.gy)
                      cross == (k.co * e.gy) + (k.so * e.gx)
                  IN dot > 0 /\ 8 * Abs(cross) <= dot
\* growth of the slope that shows in the layout
Clear(g2) == IF g2 > 5000 THEN 1700 ELSE 850
Layout(k, e) == LET g2 == Sq(e.gx) + Sq(e.gy)
                    all == Total(k.d, 1..128)
                    off == Total(k.d, {j \in 1..128 : ((j - 1) % 8) \in 2..6})
                IN /\ 12 * off <= all
                   /\ (Abs(Along(e)) > Clear(g2) * g2 => Grows(LAMBDA c : Col(k.d, c), k.d, Along(e)))
                   /\ (Abs(Across(e)) > Clear(g2) * g2 => Grows(LAMBDA r : Row(k.d, r), k.d, Across(e)))
Slope(e) == LET S == {i \in 1..Len(e.keys) : OfBlob(e.keys[i], e.blobs[1], e)}
            IN KeysOK(e) /\ Cardinality(S) = 1 /\ \A i \in S : Oriented(e.keys[i], e) /\ Layout(e.keys[i], e)
Defaults == <<0, 3, 1600, 4000, 5, 40000, 10000, 3>>
Opts(e) == /\ \A i \in 2..8 : e.def[i] = Defaults[i]
           /\ \A i \in 1..8 : (i > 1 \/ e.mask[1] = 1) => e.r[i] = (IF e.mask[i] = 0 THEN Defaults[i] ELSE IF i = 1 THEN 1 ELSE e.v[i])
Pure(p) == p /\ UNCHANGED <<known, dirs>>
Step(e) == CASE e.op = "case" -> known' = [x \in {} |-> ""] /\ dirs' = [x \in {} |-> Empty]
             [] e.op = "det" -> Detect(e)
             [] e.op \in {"harm", "mharm"} -> Damage(e)
             [] e.op = "match" -> Match(e)
             [] e.op = "file" -> Pure(File(e))
             [] e.op = "rel" -> Pure(Relation(e))
             [] e.op = "blob" -> Pure(Blob(e))
             [] e.op = "desc" -> Pure(Slope(e))
             [] e.op = "opts" -> Pure(Opts(e))
             [] OTHER -> FALSE /\ UNCHANGED <<known, dirs>>
TraceInit == l = 1 /\ known = [x \in {} |-> ""] /\ dirs = [x \in {} |-> Empty]
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, known, dirs>>
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
