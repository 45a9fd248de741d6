------------------------------- MODULE FastMC -------------------------------
(* Three small exhaustive studies of Fast's definitions, selected by Study:    *)
(*  ring  : every ring of differences on a small ring: the score is the largest*)
(*          threshold that keeps a corner, and corners only depend on which    *)
(*          differences exceed the threshold and in which direction;           *)
(*  supp  : every score map on a small grid, suppressed;                        *)
(*  adapt : the threshold control loop of a detector.                           *)
EXTENDS Fast, Json
CONSTANTS Study, Vals, GW, GH, Thrs, Maxes, Steps, Emit
VARIABLES d, b, grid, out, n, hist
vars == <<det, d, b, grid, out, n, hist>>
view == <<det, d, b, grid, out, n>>
NoOut == <<>>
ValsRing == -3..3
ValsRing2 == -2..2
MCInit == /\ Init /\ d = <<>> /\ b = 0 /\ grid = <<>> /\ out = <<>> /\ n = 0 /\ hist = <<>>
\* ---- rings
PickRing == /\ Study = "ring" /\ Len(d) < RN
            /\ \E v \in Vals : d' = Append(d, v)
            /\ UNCHANGED <<det, b, grid, out, n, hist>>
\* ---- suppression
Cell(i) == <<((i - 1) % GW), ((i - 1) \div GW)>>
PickCell == /\ Study = "supp" /\ Len(grid) < GW * GH
            /\ \E v \in Vals : grid' = Append(grid, v)
            /\ UNCHANGED <<det, d, b, out, n, hist>>
ListOf(g) == LET RECURSIVE go(_)
                 go(i) == IF i > Len(g) THEN <<>> ELSE (IF g[i] > 0 THEN <<<<Cell(i)[1], Cell(i)[2], g[i]>>>> ELSE <<>>) \o go(i + 1)
             IN go(1)
Suppress == /\ Study = "supp" /\ Len(grid) = GW * GH /\ n = 0
            /\ out' = Survivors(ListOf(grid)) /\ n' = 1
            /\ hist' = grid /\ UNCHANGED <<det, d, b, grid>>
\* ---- control
Make == /\ Study = "adapt" /\ ~det[1].ex /\ New(1) /\ hist' = <<>> /\ UNCHANGED <<d, b, grid, out, n>>
Start == /\ Study = "adapt" /\ n = 0 /\ \E t \in Thrs : SetThreshold(1, t) /\ hist' = <<t>>
         /\ n' = 1 /\ UNCHANGED <<d, b, grid, out>>
Control == /\ Study = "adapt" /\ n \in 1..Steps
           /\ \E m \in Maxes : \E k \in 0..(m + 1) : Adapt(1, k, m) /\ hist' = Append(hist, <<k, m>>)
           /\ n' = n + 1 /\ UNCHANGED <<d, b, grid, out>>
RingSpec == MCInit /\ [][PickRing]_vars
SuppNext == PickCell \/ Suppress
SuppSpec == MCInit /\ [][SuppNext]_vars
AdaptNext == Make \/ Start \/ Control
AdaptSpec == MCInit /\ [][AdaptNext]_vars
EmitCase == /\ (Emit /\ Study = "supp" /\ n = 0 /\ n' = 1) => PrintT("CASE" \o ToJson([t |-> "supp", w |-> GW, h |-> GH, g |-> hist']))
            /\ (Emit /\ Study = "adapt" /\ n = Steps /\ n' = Steps + 1) => PrintT("CASE" \o ToJson([t |-> "adapt", s |-> hist']))

Full == Study = "ring" /\ Len(d) = RN
Sym(bb) == [k \in 1..RN |-> IF d[k] > bb THEN 1 ELSE IF d[k] < 0 - bb THEN 2 ELSE 0]
ScoreIsLargest == Full => \A bb \in 0..4 : IsCorner(d, bb) <=> bb <= Strength(d)
OnlySigns == Full => \A bb \in 0..4 : IsCorner(d, bb) <=> Symbolic(Sym(bb))
\* bright and dark corners exclude each other
OneKind == Full => \A bb \in 0..4 : ~(/\ \E s \in 1..RN : \A k \in Arc(s) : d[k] > bb
                                      /\ \E s \in 1..RN : \A k \in Arc(s) : d[k] < 0 - bb)
Done == Study = "supp" /\ n = 1
NoTwoAdjacent == Done => \A i, j \in 1..Len(out) : i # j => ~Adjacent(<<out[i][1], out[i][2]>>, <<out[j][1], out[j][2]>>)
StrongestStays == Done => LET c == ListOf(grid)
                          IN \A i \in 1..Len(c) : (\A j \in 1..Len(c) : j # i => c[j][3] < c[i][3]) => \E k \in 1..Len(out) : out[k] = c[i]
DroppedHasRival == Done => LET c == ListOf(grid)
                           IN \A i \in 1..Len(c) : (\A k \in 1..Len(out) : out[k] # c[i]) =>
                                 \E j \in 1..Len(c) : j # i /\ Adjacent(<<c[i][1], c[i][2]>>, <<c[j][1], c[j][2]>>) /\ c[j][3] >= c[i][3]
InRange == (Study = "adapt" /\ n >= 2) => det[1].thr \in 5..250
Smooth == [][(Study = "adapt" /\ n >= 2) => Abs(det'[1].thr - det[1].thr) <= 3]_vars
==============================================================================
