------------------------------- MODULE CameraMC -------------------------------
(* Exhaustive studies: rotations over all triples of angles; two-view scenes   *)
(* over all signed permutations, translations and points of a small grid.      *)
EXTENDS Camera, TLC, Json
CONSTANTS G, Emit, Wide
Quarter == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>}
Angles == Quarter \cup {<<3, 4, 5>>, <<4, -3, 5>>, <<-4, 3, 5>>} \cup (IF Wide THEN {<<-3, -4, 5>>, <<5, 12, 13>>, <<-12, 5, 13>>} ELSE {})
Axes == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 2, 2>>, <<2, -1, 2>>, <<-2, 3, 6>>, <<3, 0, -4>>}
Norm(v) == CHOOSE m \in 1..20 : m * m = Dot(v, v)
VARIABLES ang, ax, t, pt, done, hist
vars == <<ang, ax, t, pt, done, hist>>
MCInit == ang = <<>> /\ ax = <<0, 0, 0>> /\ t = <<0, 0, 0>> /\ pt = <<0, 0, 0>> /\ done = FALSE /\ hist = <<>>
\* ---- rotations
AddAngle == Len(ang) < 3 /\ \E a \in Angles : ang' = Append(ang, a) /\ UNCHANGED <<ax, t, pt, done, hist>>
Rotate == /\ Len(ang) = 3 /\ ~done /\ done' = TRUE /\ UNCHANGED <<ang, t, pt>>
          /\ \E v \in Axes : ax' = v /\ hist' = [ang |-> ang, ax |-> v]
RSpec == MCInit /\ [][AddAngle \/ Rotate]_vars
RotOK == done => /\ IsRotation(ZYX(ang[1], ang[2], ang[3])) /\ IsRotation(XYZ(ang[1], ang[2], ang[3]))
                 /\ IsRotation(AxisAngle(ax, Norm(ax), ang[1]))
\* the inverse of one convention is the other one with opposite angles
Dual == done => SameRot([n |-> Tr(ZYX(ang[1], ang[2], ang[3]).n), d |-> ZYX(ang[1], ang[2], ang[3]).d], XYZ(Neg(ang[1]), Neg(ang[2]), Neg(ang[3])))
\* the axis stays where it is, opposite angles are inverse, coordinate axes are the elementary rotations
AxisOK == done => LET r == AxisAngle(ax, Norm(ax), ang[1])
                      s == AxisAngle(ax, Norm(ax), Neg(ang[1]))
                  IN /\ Vec(r.n, ax) = Scale(r.d, ax) /\ s.n = Tr(r.n)
                     /\ (ax = <<1, 0, 0>> => SameRot(r, Rx(ang[1]))) /\ (ax = <<0, 1, 0>> => SameRot(r, Ry(ang[1]))) /\ (ax = <<0, 0, 1>> => SameRot(r, Rz(ang[1])))
\* ---- scenes: quarter-turn rotations, small translations and points
AddQuarter == Len(ang) < 3 /\ \E a \in (IF Wide THEN Quarter \cup {<<3, 4, 5>>, <<4, -3, 5>>} ELSE Quarter) : ang' = Append(ang, a) /\ UNCHANGED <<ax, t, pt, done, hist>>
\* each of the rotations once
Move == /\ Len(ang) = 3 /\ ang[2] # <<-1, 0, 1>> /\ (ang[2][1] = 0 => ang[1] = <<1, 0, 1>>) /\ ~done /\ done' = TRUE /\ UNCHANGED <<ang, ax>>
        /\ \E u, x \in ((0 - G)..G) \X ((0 - G)..G) \X ((0 - G)..G) :
              /\ u # <<0, 0, 0>> /\ t' = u /\ pt' = x
              /\ hist' = [ang |-> ang, t |-> u, x |-> x]
SSpec == MCInit /\ [][AddQuarter \/ Move]_vars
Rot == ZYX(ang[1], ang[2], ang[3])
Second == LET y == Vec(Rot.n, pt) IN [i \in 1..3 |-> y[i] + t[i]]
\* every point satisfies the epipolar constraint, t is a left null vector, E is singular
EpiOK == done => LET e == Essential(Rot.n, t) IN Form(e, pt, Second) = 0 /\ Vec(Tr(e), t) = <<0, 0, 0>> /\ Det(e) = 0
\* an image point pair of a usable point determines it: rays x and R'x' only meet there
RayOK == (done /\ Usable(pt, Rot, t)) => Cross(Vec(Rot.n, pt), Second) # <<0, 0, 0>>
\* the twisted pose R' = (rotation by pi about t) R has the same E up to sign, and never
\* sees a usable point in front of both cameras together with the true pose
Twist(e) == LET n == Dot(t, t) IN [i \in 1..9 |-> e[i] * n]
PoseOK == (done /\ Usable(pt, Rot, t)) =>
    LET e == Essential(Rot.n, t)
        n == Dot(t, t)
        half == Build(LAMBDA i, j : (2 * (t[i] * t[j])) - (IF i = j THEN n ELSE 0))
        tw == Mul3(half, Rot.n)
    IN Essential(tw, t) = Scale(0 - n, e)
EmitScene == (Emit /\ ~done /\ done') => PrintT("CASE" \o ToJson(hist'))
===============================================================================
