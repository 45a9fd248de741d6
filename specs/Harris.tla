-------------------------------- MODULE Harris --------------------------------
(* Harris corners: derivative images, score image, strict local maxima above a *)
(* threshold, and detector objects that adapt their threshold from one image   *)
(* to the next.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT UNK
I == INSTANCE ImageOps
VARIABLE det            \* id -> [ex, sig, k, thr]; thr: start value, then the factors applied
Dets == {1, 2}
NoDet == [ex |-> FALSE, sig |-> 0, k |-> 0, thr |-> <<>>]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Border == 2
At(s, x, y) == s.px[(y * s.w) + x + 1]
Ring8 == {<<dx, dy>> \in (-1..1) \X (-1..1) : ~(dx = 0 /\ dy = 0)}
IsMax(s, x, y, thr) == At(s, x, y) > thr /\ \A d \in Ring8 : At(s, x, y) > At(s, x + d[1], y + d[2])
RECURSIVE Scan(_, _, _, _, _)
Scan(s, thr, x, y, acc) ==
    IF y >= s.h - Border THEN acc
    ELSE IF x >= s.w - Border THEN Scan(s, thr, Border, y + 1, acc)
    ELSE Scan(s, thr, x + 1, y, IF IsMax(s, x, y, thr) THEN Append(acc, <<x, y, At(s, x, y)>>) ELSE acc)
Maxima(s, thr) == IF s.w <= 2 * Border \/ s.h <= 2 * Border THEN <<>> ELSE Scan(s, thr, Border, Border, <<>>)
First(q, n) == SubSeq(q, 1, Min(n, Len(q)))

(* score of derivative products a, b, c with k = kn/16, times 16 *)
Score16(a, b, c, kn) == (16 * ((a * b) - (c * c))) - (kn * (a + b) * (a + b))

(* derivative products of a byte image, times 255^2, smoothed with kernel ks  *)
(* (centre first, units of 1/4096; empty: none)                                *)
Prod(x, which, i, j) == LET dx == I!DX(x, i, j)
                            dy == I!DY(x, i, j)
                        IN CASE which = 1 -> dx * dx [] which = 2 -> dy * dy [] OTHER -> dx * dy
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Conv(f(_), n, k, p) == LET m == Len(k) IN SumTo([q \in 1..(2 * m - 1) |-> (k[Abs(q - m) + 1] * f(I!Repeat(p + q - m, n))) \div 4096], 2 * m - 1)
DerivImage(x, which, k) ==
    LET raw == TLCEval([p \in 1..(x.w * x.h) |-> Prod(x, which, (p - 1) % x.w, (p - 1) \div x.w)])
        hx == IF k = <<>> THEN raw
              ELSE TLCEval([p \in 1..(x.w * x.h) |-> Conv(LAMBDA u : raw[(((p - 1) \div x.w) * x.w) + u + 1], x.w, k, (p - 1) % x.w)])
    IN IF k = <<>> THEN raw
       ELSE [p \in 1..(x.w * x.h) |-> Conv(LAMBDA v : hx[(v * x.w) + ((p - 1) % x.w) + 1], x.h, k, (p - 1) \div x.w)]
DerivOK(x, which, k, res) ==
    LET d == TLCEval(DerivImage(x, which, k))
        big == LET S == {Abs(d[p]) : p \in 1..Len(d)} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A v \in S : v <= m
    IN Len(res) = Len(d) /\ \A p \in 1..Len(d) : Abs(res[p] - d[p]) <= 2 + IF k = <<>> THEN 0 ELSE (4 * Len(k)) + (big \div 300)

(* the factor (hundredths) by which n keypoints found change the threshold *)
Factor(n, max) ==
    IF 10 * n > 17 * max THEN 400 ELSE IF 10 * n > 14 * max THEN 190 ELSE IF 10 * n > 11 * max THEN 120
    ELSE IF n > max THEN 102
    ELSE IF 2 * n < max THEN 25 ELSE IF 10 * n < 9 * max THEN 60 ELSE IF 100 * n < 95 * max THEN 90
    ELSE IF 100 * n < 99 * max THEN 97 ELSE 100

-------------------------------------------------------------------------------
(* levels scanned from the coarsest asked for, until 2*max are found *)
RECURSIVE Found(_, _, _, _)
Found(lv, i, thr, room) ==
    IF i = 0 \/ room <= 0 THEN <<>>
    ELSE LET m == First(Maxima(lv[i], thr), room)
         IN [j \in 1..Len(m) |-> <<m[j], i>>] \o Found(lv, i - 1, thr, room - Len(m))

Init == det = [d \in Dets |-> NoDet]
New(d) == det' = [det EXCEPT ![d] = [ex |-> TRUE, sig |-> 1200, k |-> 60, thr |-> <<5000>>]]
SetThr(d, v) == det[d].ex /\ det' = [det EXCEPT ![d].thr = <<v>>]
SetSig(d, v) == det[d].ex /\ det' = [det EXCEPT ![d].sig = v]
SetK(d, v) == det[d].ex /\ det' = [det EXCEPT ![d].k = v]
\* n: maxima found (at most 2*max)
Detected(d, n, max, adapt) ==
    /\ det[d].ex
    /\ det' = IF adapt /\ Factor(n, max) # 100 THEN [det EXCEPT ![d].thr = Append(@, Factor(n, max))] ELSE det
Free(d) == det' = [det EXCEPT ![d] = NoDet]
===============================================================================
