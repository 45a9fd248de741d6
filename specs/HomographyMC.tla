----------------------------- MODULE HomographyMC -----------------------------
(* Exhaustive studies on a small grid: all quadrangles, all small affine maps. *)
EXTENDS Homography, TLC, Json
CONSTANTS G, E, Emit
VARIABLES q, m, done, hist
vars == <<q, m, done, hist>>
MCInit == q = <<>> /\ m = <<>> /\ done = FALSE /\ hist = <<>>
\* ---- quadrangles
AddPoint == /\ Len(q) < 4 /\ \E x, y \in 0..G : q' = Append(q, <<x, y>>)
            /\ UNCHANGED <<m, done, hist>>
Estimate == /\ Len(q) = 4 /\ ~done /\ done' = TRUE
            /\ hist' = [x |-> q, gen |-> General(q)] /\ UNCHANGED <<q, m>>
QSpec == MCInit /\ [][AddPoint \/ Estimate]_vars
EmitQ == (Emit /\ ~done /\ done') => PrintT("CASE" \o ToJson(hist'))
\* in general position the vanishing line is a line, and it misses all corners
VanishingOK == (done /\ General(q)) =>
    LET v == Vanishing(q) IN v # <<0, 0, 0>> /\ \A i \in 1..4 : (v[1] * q[i][1]) + (v[2] * q[i][2]) + v[3] # 0
\* a parallelogram has no vanishing line in the plane: the origin is always finite
Parallelogram == q[1][1] + q[3][1] = q[2][1] + q[4][1] /\ q[1][2] + q[3][2] = q[2][2] + q[4][2]
AffineOK == (done /\ General(q) /\ Parallelogram) => OriginFinite(q)
\* ---- affine maps and the sanity check
AddEntry == /\ Len(m) < 4 /\ \E v \in (0 - E)..E : m' = Append(m, v)
            /\ UNCHANGED <<q, done, hist>>
Mat == <<m[1], m[2], 0, m[3], m[4], 0, 3, 5, 1>>
Decide == /\ Len(m) = 4 /\ ~done /\ done' = TRUE
          /\ hist' = [h |-> Mat] /\ UNCHANGED <<q, m>>
ASpec == MCInit /\ [][AddEntry \/ Decide]_vars
Det == (m[1] * m[4]) - (m[2] * m[3])
\* with the loosest bound the check is exactly: orientation kept
Orientation == done => ((CheckVerdict(Mat, 8) \in {"yes"}) <=> Det > 0)
Monotone == done => \A c \in 0..7 : CheckVerdict(Mat, c) = "yes" => CheckVerdict(Mat, c + 1) = "yes"
\* the verdict does not depend on the scale of the matrix
ScaleFree == done => \A c \in 0..8 : CheckVerdict(Mat, c) = CheckVerdict([i \in 1..9 |-> 2 * Mat[i]], c)
===============================================================================
