------------------------------- MODULE Checkers -------------------------------
(* The checkerboard response.  Of a picture, the means over 2 r + 1 pixels       *)
(* along four directions: rows, columns and the two diagonals (the picture       *)
(* turned by 45 degrees, its rows averaged, turned back).  Where edges cross,    *)
(* the means differ: the response is the square of their range, as part of the   *)
(* full range, blurred a little.                                                 *)
EXTENDS ImageOps, TLC
VARIABLES img, rad, lr, resp
cvars == <<img, rad, lr, resp>>
Gray(w, h, px) == [w |-> w, h |-> h, type |-> 0, dt |-> 0, px |-> px]
None == Gray(0, 0, <<>>)
RowMeans(x, r) == BoxX(x, r)
ColMeans(x, r) == [x EXCEPT !.px = [p \in 1..Len(x.px) |-> BoxSumY(x, (p - 1) % x.w, (p - 1) \div x.w, r) \div (2 * r + 1)]]
-------------------------------------------------------------------------------
(* ---- turning by 45 degrees about the centre, bilinear; 0 where the picture     *)
(* does not reach; positions in 1/256                                             *)
Root(v) == (v * 46341) \div 256
TurnPos(x, dw, dh, cw, i, j) ==
    LET s == IF cw THEN 1 ELSE -1
    IN <<(Root((2 * i) + (s * 2 * j)) - Root(dw + (s * dh)) + (256 * x.w)) \div 2,
         (Root((2 * j) - (s * 2 * i)) + Root((s * dw) - dh) + (256 * x.h)) \div 2>>
Mix(x, X, Y) == LET i == X \div 256  j == Y \div 256  u == X % 256  v == Y % 256
                    a(p, q) == G(x, Repeat(p, x.w), Repeat(q, x.h))
                IN (((256 - v) * (((256 - u) * a(i, j)) + (u * a(i + 1, j)))) + (v * (((256 - u) * a(i, j + 1)) + (u * a(i + 1, j + 1))))) \div 65536
AtEdge(X, n) == Abs(X) <= 3 \/ Abs(X - (256 * (n - 1))) <= 3
Turned(x, cw, y) == Len(y.px) = y.w * y.h /\
    \A k \in 1..(y.w * y.h) :
        LET P == TurnPos(x, y.w, y.h, cw, (k - 1) % y.w, (k - 1) \div y.w)
            in == P[1] >= 0 /\ P[1] < 256 * (x.w - 1) /\ P[2] >= 0 /\ P[2] < 256 * (x.h - 1)
            ok == Abs(y.px[k] - Mix(x, P[1], P[2])) <= 5
        IN IF AtEdge(P[1], x.w) \/ AtEdge(P[2], x.h) THEN ok \/ y.px[k] = 0 ELSE IF in THEN ok ELSE y.px[k] = 0
\* side of the square the turned picture is averaged in: (w + h + 2) / sqrt 2
Side(w, h) == CHOOSE s \in 0..(w + h + 2) : 2 * s * s <= (w + h + 2) * (w + h + 2) /\ 2 * (s + 1) * (s + 1) > (w + h + 2) * (w + h + 2)
\* t: the turned picture, a witness; its rows averaged and turned back give the means along a diagonal
DiagMeans(x, r, cw, t, y) ==
    /\ t.w = Side(x.w, x.h) /\ t.h = t.w /\ y.w = x.w /\ y.h = x.h
    /\ Turned(x, cw, t) /\ Turned(TLCEval(RowMeans(t, r)), ~cw, y)
-------------------------------------------------------------------------------
(* ---- the response, in units of 1 / 65025 of the full one *)
Range4(m, p) == LET S == {m[i].px[p] : i \in 1..4} IN (CHOOSE a \in S : \A b \in S : a >= b) - (CHOOSE a \in S : \A b \in S : a <= b)
Crossing(m) == [p \in 1..Len(m[1].px) |-> Range4(m, p) * Range4(m, p)]
\* a Gaussian of 1.3 pixels, cut off at three of them, in 1/1024
Blur == <<314, 234, 96, 22, 3>>
Along(c, w, h) == [p \in 1..(w * h) |-> LET i == (p - 1) % w  j == (p - 1) \div w
                   IN SumTo([m \in 1..(2 * Len(Blur) - 1) |-> Blur[Abs(m - Len(Blur)) + 1] * c[(j * w) + Repeat(i + m - Len(Blur), w) + 1]], 2 * Len(Blur) - 1) \div 64]
Down(c, w, h) == [p \in 1..(w * h) |-> LET i == (p - 1) % w  j == (p - 1) \div w
                   IN SumTo([m \in 1..(2 * Len(Blur) - 1) |-> Blur[Abs(m - Len(Blur)) + 1] * c[(Repeat(j + m - Len(Blur), h) * w) + i + 1]], 2 * Len(Blur) - 1) \div 1024]
\* in 1/16 of that unit
Response(m) == TLCEval(Down(TLCEval(Along(TLCEval(Crossing(m)), m[1].w, m[1].h)), m[1].w, m[1].h))
-------------------------------------------------------------------------------
Init == img = None /\ rad = 0 /\ lr = <<None, None, None, None>> /\ resp = <<>>
\* whatever the four images held before
Radon(x, r, m, t) ==
    /\ m[1] = RowMeans(x, r) /\ m[2] = ColMeans(x, r)
    /\ (DiagMeans(x, r, TRUE, t[1], m[3]) /\ DiagMeans(x, r, FALSE, t[2], m[4])) = TRUE
    /\ img' = x /\ rad' = r /\ lr' = m /\ resp' = <<>>
Score(s, tol) == /\ LET want == Response(lr) IN Len(s) = Len(want) /\ \A p \in 1..Len(s) : Abs(s[p] - want[p]) <= tol
                 /\ resp' = s /\ UNCHANGED <<img, rad, lr>>
===============================================================================
