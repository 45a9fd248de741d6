-------------------------------- MODULE Linear --------------------------------
(* Exact linear algebra over the integers.  A matrix is [m, n, a] with a its   *)
(* columns one after the other; quaternions are <<w, x, y, z>>.                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE A            \* the matrix in hand
lvars == <<A>>
Mat(m, n, f(_, _)) == [m |-> m, n |-> n, a |-> [k \in 1..(m * n) |-> f(((k - 1) % m) + 1, ((k - 1) \div m) + 1)]]
At(M, r, c) == M.a[((c - 1) * M.m) + r]
RECURSIVE Dot(_, _)
Dot(u, v) == IF u = <<>> THEN 0 ELSE (Head(u) * Head(v)) + Dot(Tail(u), Tail(v))
RECURSIVE Norm2(_)
Norm2(u) == Dot(u, u)
Row(M, r) == [c \in 1..M.n |-> At(M, r, c)]
Col(M, c) == [r \in 1..M.m |-> At(M, r, c)]
Transpose(M) == Mat(M.n, M.m, LAMBDA r, c : At(M, c, r))
Times(M, N) == Mat(M.m, N.n, LAMBDA r, c : Dot(Row(M, r), Col(N, c)))
Eye(n) == Mat(n, n, LAMBDA r, c : IF r = c THEN 1 ELSE 0)
Square(n, s) == [m |-> n, n |-> n, a |-> s]
Det3(M) == (At(M, 1, 1) * ((At(M, 2, 2) * At(M, 3, 3)) - (At(M, 3, 2) * At(M, 2, 3))))
         - (At(M, 1, 2) * ((At(M, 2, 1) * At(M, 3, 3)) - (At(M, 3, 1) * At(M, 2, 3))))
         + (At(M, 1, 3) * ((At(M, 2, 1) * At(M, 3, 2)) - (At(M, 3, 1) * At(M, 2, 2))))
\* the adjugate: every entry is a signed 2 by 2 minor of the transpose
Skip3(i) == CASE i = 1 -> <<2, 3>> [] i = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
Minor(M, r, c) == LET i == Skip3(r) j == Skip3(c)
                  IN (At(M, i[1], j[1]) * At(M, i[2], j[2])) - (At(M, i[2], j[1]) * At(M, i[1], j[2]))
Adj3(M) == Mat(3, 3, LAMBDA r, c : (IF (r + c) % 2 = 0 THEN 1 ELSE -1) * Minor(M, c, r))
Scale(k, s) == [i \in 1..Len(s) |-> k * s[i]]
Cross(u, v) == <<(u[2] * v[3]) - (u[3] * v[2]), (u[3] * v[1]) - (u[1] * v[3]), (u[1] * v[2]) - (u[2] * v[1])>>
First(s, best(_, _)) == IF s = <<>> THEN 0 ELSE CHOOSE i \in 1..Len(s) : /\ \A j \in 1..Len(s) : ~best(s[j], s[i])
                                                                         /\ \A j \in 1..(i - 1) : s[j] # s[i]
ArgMax(s) == First(s, LAMBDA a, b : a > b) - 1
\* ---- where an in place transposition moves things: element k (from 0) of an m by n matrix
Moved(m, n, k) == IF k = (m * n) - 1 THEN k ELSE (k * n) % ((m * n) - 1)
MovesRight(m, n) == \A k \in 0..((m * n) - 1) : (m * n > 1) => Moved(m, n, k) = ((k % m) * n) + (k \div m)
\* ---- quaternions
QMul(p, q) == <<(p[1] * q[1]) - (p[2] * q[2]) - (p[3] * q[3]) - (p[4] * q[4]),
                (p[1] * q[2]) + (p[2] * q[1]) + (p[3] * q[4]) - (p[4] * q[3]),
                (p[1] * q[3]) - (p[2] * q[4]) + (p[3] * q[1]) + (p[4] * q[2]),
                (p[1] * q[4]) + (p[2] * q[3]) - (p[3] * q[2]) + (p[4] * q[1])>>
QConj(q) == <<q[1], -q[2], -q[3], -q[4]>>
\* |q|^2 times the rotated vector
Rotated(q, v) == Tail(QMul(QMul(q, <<0>> \o v), QConj(q)))
\* |q|^2 times the rotation matrix
QMat(q) == [m |-> 3, n |-> 3, a |-> Rotated(q, <<1, 0, 0>>) \o Rotated(q, <<0, 1, 0>>) \o Rotated(q, <<0, 0, 1>>)]
\* ---- properties
TransposeTwice == Transpose(Transpose(A)) = A
TransposeSwaps == A.m = A.n => Times(Transpose(A), Transpose(A)) = Transpose(Times(A, A))
Identity == Times(A, Eye(A.n)) = A /\ Times(Eye(A.m), A) = A
InverseLaw == (A.m = 3 /\ A.n = 3) => /\ Times(A, Adj3(A)).a = Scale(Det3(A), Eye(3).a)
                                       /\ Det3(Transpose(A)) = Det3(A)
                                       /\ Det3(A) = Dot(Col(A, 1), Cross(Col(A, 2), Col(A, 3)))
===============================================================================
