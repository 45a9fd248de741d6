------------------------------- MODULE HarrisMC -------------------------------
(* Two exhaustive studies: every small score map, and the threshold control    *)
(* loop with the count of keypoints as the environment's choice.               *)
EXTENDS Harris, Json
CONSTANTS Vals, GW, GH, Maxes, Steps, Emit
VARIABLES grid, out, thr, n, hist
vars == <<det, grid, out, thr, n, hist>>
view == <<det, grid, out, thr, n>>
MCInit == Init /\ grid = <<>> /\ out = <<>> /\ thr = 0 /\ n = 0 /\ hist = <<>>
W == GW + 4
H == GH + 4
\* the interior and the ring around it are free, the outermost ring is high
Free2(i) == LET x == (i - 1) % W  y == (i - 1) \div W IN x \in 1..(W - 2) /\ y \in 1..(H - 2)
PickCell == /\ Len(grid) < W * H
            /\ \E v \in Vals : /\ (~Free2(Len(grid) + 1) => v = CHOOSE m \in Vals : \A u \in Vals : u <= m)
                               /\ grid' = Append(grid, v)
            /\ UNCHANGED <<det, out, thr, n, hist>>
Img == [w |-> W, h |-> H, px |-> grid]
Detect == /\ Len(grid) = W * H /\ n = 0
          /\ \E t \in {0, 1} : /\ thr' = t /\ out' = Maxima(Img, t)
                               /\ hist' = [g |-> grid, w |-> W, h |-> H, t |-> t]
          /\ n' = 1 /\ UNCHANGED <<det, grid>>
MaxNext == PickCell \/ Detect
MaxSpec == MCInit /\ [][MaxNext]_vars
EmitMax == (Emit /\ n = 0 /\ n' = 1) => PrintT("CASE" \o ToJson(hist'))
Done == n = 1
Interior == Done => \A i \in 1..Len(out) : out[i][1] \in 2..(W - 3) /\ out[i][2] \in 2..(H - 3)
NotAdjacent == Done => \A i, j \in 1..Len(out) : i # j => ~(Abs(out[i][1] - out[j][1]) <= 1 /\ Abs(out[i][2] - out[j][2]) <= 1)
Ordered == Done => \A i \in 1..(Len(out) - 1) : (out[i][2] * W) + out[i][1] < (out[i + 1][2] * W) + out[i + 1][1]
AboveThr == Done => \A i \in 1..Len(out) : out[i][3] > thr
\* ---- control
Make == ~det[1].ex /\ New(1) /\ UNCHANGED <<grid, out, thr, n, hist>>
Run == /\ det[1].ex /\ n < Steps
       /\ \E m \in Maxes : \E k \in 0..(2 * m) : Detected(1, k, m, TRUE) /\ out' = <<k, m>>
       /\ n' = n + 1 /\ UNCHANGED <<grid, thr, hist>>
CtlNext == Make \/ Run
CtlSpec == MCInit /\ [][CtlNext]_vars
\* too many keypoints never lower the threshold, too few never raise it
Direction == [][n' > n => LET f == IF Len(det'[1].thr) > Len(det[1].thr) THEN det'[1].thr[Len(det'[1].thr)] ELSE 100
                          IN (out'[1] > out'[2] => f > 100) /\ (out'[1] < out'[2] => f <= 100) /\ (out'[1] = out'[2] => f = 100)]_vars
===============================================================================
