-------------------------------- MODULE Fast --------------------------------
(* Segment-test corners: which pixels are corners, how strong they are, which *)
(* of them survive suppression, and what a detector (threshold, orientation)   *)
(* reports for an image or a pyramid.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS RN, RA          \* ring length, arc length (16 and 9 in the code)
VARIABLES det             \* detector id -> [ex, thr, ori]
Dets == {1, 2}
NoDet == [ex |-> FALSE, thr |-> 0, ori |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
MaxSet(S) == CHOOSE m \in S : \A x \in S : x <= m
MinSet(S) == CHOOSE m \in S : \A x \in S : m <= x

-------------------------------------------------------------------------------
(* rings are sequences of differences to the centre *)
Arc(s) == {((s - 1 + k) % RN) + 1 : k \in 0..(RA - 1)}
IsCorner(d, b) == \/ \E s \in 1..RN : \A k \in Arc(s) : d[k] > b
                  \/ \E s \in 1..RN : \A k \in Arc(s) : d[k] < 0 - b
Strength(d) == Max(MaxSet({MinSet({d[k] : k \in Arc(s)}) : s \in 1..RN}),
                   MaxSet({MinSet({0 - d[k] : k \in Arc(s)}) : s \in 1..RN})) - 1
(* symbolic rings: 0 alike, 1 brighter, 2 darker *)
Symbolic(t) == \E s \in 1..RN : \E v \in {1, 2} : \A k \in Arc(s) : t[k] = v

RingX == <<0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1>>
RingY == <<3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3>>
At(img, x, y) == img.px[(y * img.w) + x + 1]
Diffs(img, x, y) == [k \in 1..16 |-> At(img, x + RingX[k], y + RingY[k]) - At(img, x, y)]
\* raster order
Before(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
RECURSIVE Collect(_, _, _, _, _)
Collect(img, b, x, y, acc) ==
    IF y >= img.h - 3 THEN acc
    ELSE IF x >= img.w - 3 THEN Collect(img, b, 3, y + 1, acc)
    ELSE Collect(img, b, x + 1, y, IF IsCorner(Diffs(img, x, y), b) THEN Append(acc, <<x, y>>) ELSE acc)
Corners(img, b) == IF img.w < 7 \/ img.h < 7 THEN <<>> ELSE Collect(img, b, 3, 3, <<>>)
First(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Scored(img, cs) == [i \in 1..Len(cs) |-> <<cs[i][1], cs[i][2], Strength(Diffs(img, cs[i][1], cs[i][2]))>>]

(* suppression over <<x, y, score>> *)
Adjacent(p, q) == p # q /\ Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
Survives(cs, i) == \A j \in 1..Len(cs) : (j # i /\ Adjacent(<<cs[i][1], cs[i][2]>>, <<cs[j][1], cs[j][2]>>)) => cs[j][3] < cs[i][3]
Survivors(cs) == LET keep == {i \in 1..Len(cs) : Survives(cs, i)}
                     RECURSIVE go(_)
                     go(i) == IF i > Len(cs) THEN <<>> ELSE (IF i \in keep THEN <<cs[i]>> ELSE <<>>) \o go(i + 1)
                 IN go(1)

(* orientation: moments over the open disc of radius r, if it lies in the image *)
Disc(r) == {<<x, y>> \in ((0 - r)..r) \X ((0 - r)..r) : (x * x) + (y * y) < r * r}
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumS(S \ {e}, f)
HasDisc(img, r, x, y) == x >= r /\ y >= r /\ x < img.w - r /\ y < img.h - r
MomX(img, r, x, y) == SumS(Disc(r), [d \in Disc(r) |-> d[1] * At(img, x + d[1], y + d[2])])
MomY(img, r, x, y) == SumS(Disc(r), [d \in Disc(r) |-> d[2] * At(img, x + d[1], y + d[2])])
\* c, s: cosine and sine times 10000
AngleOK(mx, my, c, s) ==
    IF mx = 0 /\ my = 0 THEN c = 10000 /\ s = 0
    ELSE /\ Abs((mx * s) - (my * c)) <= 2 * (Abs(mx) + Abs(my))
         /\ (mx * c) + (my * s) > 0
OriOK(img, r, k) == IF r > 0 /\ HasDisc(img, r, k.x, k.y)
                    THEN AngleOK(MomX(img, r, k.x, k.y), MomY(img, r, k.x, k.y), k.c, k.s)
                    ELSE k.c = 10000 /\ k.s = 0

-------------------------------------------------------------------------------
(* what is reported *)
Plain(img, b, max) == First(Corners(img, b), max)
Strong(img, b, work, max) == First(Survivors(Scored(img, Plain(img, b, work))), max)
\* a reported keypoint of level v with the level's scale and blur, number id
KeyIs(k, p, lev, scale, sigma, id) ==
    /\ k.x = p[1] /\ k.y = p[2] /\ k.xs = p[1] /\ k.ys = p[2]
    /\ k.level = lev /\ k.scale = scale /\ k.sigma = sigma /\ k.id = id
\* coarse to fine, each level getting what room is left
RECURSIVE Levels(_, _, _, _, _)
Levels(lv, i, b, work, room) ==
    IF i = 0 \/ room <= 0 THEN <<>>
    ELSE LET s == Strong(lv[i], b, work, room)
         IN [j \in 1..Len(s) |-> <<s[j], i>>] \o Levels(lv, i - 1, b, work, room - Len(s))
UsedLevels(n, asked) == IF asked <= 0 \/ asked > n THEN n ELSE asked

Adapted(thr, n, max) ==
    IF n >= (1014 * max) \div 1024 THEN Min(250, thr + 3)
    ELSE IF n <= (716 * max) \div 1024 THEN Max(5, thr - 3)
    ELSE IF n <= (921 * max) \div 1024 THEN Max(5, thr - 1)
    ELSE thr

-------------------------------------------------------------------------------
Init == det = [d \in Dets |-> NoDet]
New(d) == det' = [det EXCEPT ![d] = [ex |-> TRUE, thr |-> 15, ori |-> 0]]
Free(d) == det' = [det EXCEPT ![d] = NoDet]
SetThreshold(d, b) == det[d].ex /\ det' = [det EXCEPT ![d].thr = b]
SetOri(d, r) == det[d].ex /\ det' = [det EXCEPT ![d].ori = r]
Adapt(d, n, max) == det[d].ex /\ det' = [det EXCEPT ![d].thr = Adapted(@, n, max)]
Detect(d) == det[d].ex /\ UNCHANGED det
==============================================================================
