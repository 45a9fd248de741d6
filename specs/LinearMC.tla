------------------------------- MODULE LinearMC -------------------------------
EXTENDS Linear, TLC, Json
CONSTANTS Vals, Dims, Qs, Emit
ASSUME \A m, n \in 1..9 : MovesRight(m, n)
Quats == [1..4 -> Qs]
\* the product of quaternions composes rotations and keeps norms multiplicative
ASSUME \A p, q \in Quats : /\ Norm2(QMul(p, q)) = Norm2(p) * Norm2(q)
                           /\ QConj(QMul(p, q)) = QMul(QConj(q), QConj(p))
ASSUME \A q \in Quats : /\ Times(QMat(q), Transpose(QMat(q))).a = Scale(Norm2(q) * Norm2(q), Eye(3).a)
                        /\ Det3(QMat(q)) = Norm2(q) * Norm2(q) * Norm2(q)
                        /\ (Emit => PrintT("CASE" \o ToJson([q |-> q])))
ASSUME \A p, q \in [1..4 -> {0, 1}] : QMat(QMul(p, q)) = Times(QMat(p), QMat(q))
Empty == [m |-> 0, n |-> 0, a |-> <<>>]
MCInit == \E d \in Dims : \E s \in [1..(d[1] * d[2]) -> Vals] : A = [m |-> d[1], n |-> d[2], a |-> s]
MCTranspose == A' = Transpose(A)
MCSpec == MCInit /\ [][MCTranspose]_lvars
EmitCase == Emit => PrintT("CASE" \o ToJson([mat |-> A]))
Units == {-1, 0, 1}
Two == {0, 1}
Small == {<<3, 3>>}
Shapes == {<<1, 3>>, <<2, 3>>, <<3, 2>>, <<4, 1>>, <<2, 2>>}
===============================================================================
