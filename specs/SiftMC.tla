-------------------------------- MODULE SiftMC --------------------------------
(* Every short history of questions through two directories, of damage and of  *)
(* direct computation; every small matching problem.                           *)
EXTENDS Sift, TLC, Json
CONSTANTS MaxLen, NIn, Emit, Vals, MaxQ, MaxP
VARIABLES hist, dirs, last, q, p, thr, done
vars == <<hist, dirs, last, q, p, thr, done>>
Idle == UNCHANGED <<q, p, thr, done>>
MCInit == hist = <<>> /\ dirs = [d \in 1..2 |-> Empty] /\ last = [out |-> "none"] /\ q = <<>> /\ p = <<>> /\ thr = 0 /\ done = FALSE
\* ---- histories
Use(i, d) == LET a == Ask(dirs[d], i) IN /\ dirs' = [dirs EXCEPT ![d] = a.dir] /\ last' = [out |-> a.out, made |-> a.made, i |-> i, d |-> d]
                                         /\ hist' = Append(hist, <<"ask", i, d>>) /\ Idle
Direct(i, c) == hist' = Append(hist, <<"new", i, c>>) /\ last' = [out |-> "ok", made |-> 0, i |-> i, d |-> 0] /\ UNCHANGED dirs /\ Idle
Spoil(i, d, k) == Has(dirs[d], i) /\ dirs' = [dirs EXCEPT ![d] = Harm(dirs[d], i, k)] /\ hist' = Append(hist, <<k, i, d>>) /\ last' = [out |-> "none"] /\ Idle
MCNext == /\ Len(hist) < MaxLen
          /\ \E i \in 1..NIn : (\E d \in 1..2 : Use(i, d)) \/ (\E c \in {0, 1, 2} : Direct(i, c)) \/ (\E d \in 1..2, k \in {"cut", "neg", "gone"} : Spoil(i, d, k))
MCSpec == MCInit /\ [][MCNext]_vars
Asked(i, d) == {n \in 1..Len(hist) : hist[n] = <<"ask", i, d>>}
Hurt(i, d) == {n \in 1..Len(hist) : hist[n] \in {<<k, i, d>> : k \in {"cut", "neg", "gone"}}}
\* the entries are the inputs asked for and not removed since
EntriesOK == \A d \in 1..2, i \in 1..NIn : Has(dirs[d], i) <=> (\E n \in Asked(i, d) : \A m \in Hurt(i, d) : m > n => hist[m][1] # "gone")
\* an answer is refused exactly when its entry was damaged after it was written
RefusedOK == last.out \in {"ok", "fatal"} =>
    ((last.out = "fatal") <=> (last.d # 0 /\ last.made = 0 /\ \E m \in Hurt(last.i, last.d) : hist[m][1] # "gone" /\ \A k \in Hurt(last.i, last.d) : k > m => hist[k][1] # "gone"))
\* directories do not influence each other
ApartOK == \A d \in 1..2, i \in 1..NIn : (Asked(i, d) = {}) => ~Has(dirs[d], i)
EmitCase == (Emit /\ Len(hist') = MaxLen) => PrintT("CASE" \o ToJson([h |-> hist']))
\* ---- matching
Key(v, n) == <<v, 0, 0, v, 4 * n, 2, n % 3, n>>
AddQ == ~done /\ p = <<>> /\ Len(q) < MaxQ /\ \E v \in Vals : q' = Append(q, Key(v, Len(q))) /\ UNCHANGED <<hist, dirs, last, p, thr, done>>
AddP == ~done /\ Len(p) < MaxP /\ \E v \in Vals : p' = Append(p, Key(v, 10 + Len(p))) /\ UNCHANGED <<hist, dirs, last, q, thr, done>>
Finish == ~done /\ done' = TRUE /\ \E t \in {0, 3, 6, 8} : thr' = t /\ UNCHANGED <<hist, dirs, last, q, p>>
KSpec == MCInit /\ [][AddQ \/ AddP \/ Finish]_vars
M == Matches(q, p, thr, 1)
\* every accepted match is a nearest one, ratio tests only remove, exact ties are never accepted
NearestOK == done => \A i \in 1..Len(M) : \A k \in 1..Len(p) : Dist(q[M[i][1]], p[M[i][2]]) <= Dist(q[M[i][1]], p[k])
FilterOK == done => LET f == Matches(q, p, 0, 1) IN (\A i \in 1..Len(M) : \E j \in 1..Len(f) : f[j] = M[i]) /\ (p # <<>> => Len(f) = Len(q)) /\ (p = <<>> => M = <<>>)
TieOK == (done /\ Ratio(thr)) => \A i \in 1..Len(M) : \A k \in 1..Len(p) : k # M[i][2] => Dist(q[M[i][1]], p[k]) > Dist(q[M[i][1]], p[M[i][2]])
OnceOK == done => \A i \in 1..Len(M), j \in 1..Len(M) : i < j => M[i][1] < M[j][1]
EmitMatch == (Emit /\ ~done /\ done') => PrintT("CASE" \o ToJson([q |-> q, p |-> p, t |-> thr']))
===============================================================================
