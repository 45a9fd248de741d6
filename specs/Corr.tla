--------------------------------- MODULE Corr ---------------------------------
(* Sets of point correspondences: an ordered list of matches, each with its two *)
(* positions, scales, identities, cost and inlier mark.  Sets are values: what  *)
(* is done to one never shows in another, cloned or not.  A set is either as    *)
(* given or normalised; normalising keeps order, identity, cost and marks and   *)
(* is undone by denormalising.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Slots
VARIABLE set
\* a match: positions and scales in 1/32 pixel, cost in 1/32
Row(x, y, xp, yp, cost, sx, sxp, id, idp, inl) == [x |-> x, y |-> y, xp |-> xp, yp |-> yp, cost |-> cost, sx |-> sx, sxp |-> sxp, id |-> id, idp |-> idp, inl |-> inl]
None == [live |-> FALSE, m |-> <<>>, z |-> FALSE, soft |-> FALSE]
\* z: normalised now; soft: was normalised before, so positions are only as good as the arithmetic
Fresh == [live |-> TRUE, m |-> <<>>, z |-> FALSE, soft |-> FALSE]
\* a match of two keypoints found at a pyramid level: positions in 1/4, scales in 1/8
OfKeys(k, kp, s0, cost, inl) == Row(k.xs * k.scale, k.ys * k.scale, kp.xs * kp.scale, kp.ys * kp.scale, cost,
                                    s0 * k.scale, s0 * kp.scale, k.id, kp.id, inl)
Live(s) == set[s].live
New(s) == set' = [set EXCEPT ![s] = Fresh]
Clone(d, s) == Live(s) /\ set' = [set EXCEPT ![d] = set[s]]
Add(s, r) == Live(s) /\ ~set[s].z /\ set' = [set EXCEPT ![s].m = Append(@, r)]
Mark(s, k, v) == Live(s) /\ k \in 1..Len(set[s].m) /\ set' = [set EXCEPT ![s].m[k].inl = v]
Put(s, k, x, y) == Live(s) /\ ~set[s].z /\ k \in 1..Len(set[s].m) /\ set' = [set EXCEPT ![s].m[k].x = x, ![s].m[k].yp = y]
Clear(s) == Live(s) /\ set' = [set EXCEPT ![s] = Fresh]
Normalize(s) == Live(s) /\ ~set[s].z /\ set' = [set EXCEPT ![s].z = TRUE]
Denormalize(s) == Live(s) /\ set' = [set EXCEPT ![s].z = FALSE, ![s].soft = @ \/ set[s].z]
\* the order of equal costs is free
Ordered(m) == \A i \in 1..(Len(m) - 1) : m[i].cost <= m[i + 1].cost
Reorders(m, q) == Len(q) = Len(m) /\ \E p \in [1..Len(m) -> 1..Len(m)] : (\A i, j \in 1..Len(m) : i # j => p[i] # p[j]) /\ \A i \in 1..Len(m) : q[i] = m[p[i]]
Sort(s, q) == Live(s) /\ Ordered(q) /\ set' = [set EXCEPT ![s].m = q]
Inliers(m) == Cardinality({i \in 1..Len(m) : m[i].inl})
===============================================================================
