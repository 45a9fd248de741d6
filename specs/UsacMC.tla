-------------------------------- MODULE UsacMC --------------------------------
(* Every answer sequence of the environment up to a number of samples.         *)
EXTENDS Usac, TLC, Json
CONSTANTS Iters, MaxFit, Scores, Emit
Low == -1000000
Nan == 1000000000
Sc3 == {0, 1, Nan}
Sc4 == {0, 1, 2, Nan}
VARIABLES it, next, hist,
          acc,   \* ghost: <<model, score>> of every model that passed all of its checks
          bad    \* ghost: models that failed a check
vars == <<uvars, it, next, hist, acc, bad>>
view == <<pc, bs, cs, [i \in 1..Len(todo) |-> todo[i] - next], it, best = cur, best = 0, best = ref, {a[2] : a \in acc}>>
MCInit == Idle /\ it = 0 /\ next = 1 /\ hist = <<>> /\ acc = {} /\ bad = {}
H(f, v) == hist' = Append(hist, <<f, v>>)
B(b) == IF b THEN 1 ELSE 0
DoStart == Start /\ it = 0 /\ it' = 1 /\ UNCHANGED <<next, hist, acc, bad>>
DoTerm == \E s \in BOOLEAN : Term(best, bs, s) /\ (it > Iters => s) /\ it' = it + 1 /\ H("T", B(s)) /\ UNCHANGED <<next, acc, bad>>
DoSample == Sample /\ UNCHANGED <<it, next, hist, acc, bad>>
DoSCheck == \E ok \in BOOLEAN : SCheck(ok) /\ H("S", B(ok)) /\ UNCHANGED <<it, next, acc, bad>>
DoFit == \E n \in 0..MaxFit : Fit([i \in 1..n |-> next + i - 1]) /\ next' = next + n /\ H("F", n) /\ UNCHANGED <<it, acc, bad>>
DoMCheck == \E ok \in BOOLEAN : /\ todo # <<>> /\ MCheck(Head(todo), ok) /\ H("M", B(ok)) /\ UNCHANGED <<it, next, acc>>
                                /\ bad' = (IF ok THEN bad ELSE bad \cup {Head(todo)})
DoScore == \E v \in Scores : Score(cur, v) /\ H("V", v) /\ UNCHANGED <<it, next, acc, bad>>
DoDegen == \E ok \in BOOLEAN : /\ Degen(cur, ok) /\ H("D", B(ok)) /\ UNCHANGED <<it, next>>
                               /\ acc' = (IF ok THEN acc \cup {<<cur, cs>>} ELSE acc) /\ bad' = (IF ok THEN bad ELSE bad \cup {cur})
DoLocal == \E ok \in BOOLEAN : Local(cur, ok, next) /\ next' = next + 1 /\ H("L", B(ok)) /\ UNCHANGED <<it, acc, bad>>
DoLScore == \E v \in Scores : LScore(ref, v) /\ H("V", v) /\ acc' = acc \cup {<<ref, v>>} /\ UNCHANGED <<it, next, bad>>
DoGlobal == Global(best, next) /\ next' = next + 1 /\ UNCHANGED <<it, hist, acc, bad>>
DoGScore == \E v \in Scores : GScore(ref, v) /\ H("V", v) /\ acc' = acc \cup {<<ref, v>>} /\ UNCHANGED <<it, next, bad>>
MCNext == DoStart \/ DoTerm \/ DoSample \/ DoSCheck \/ DoFit \/ DoMCheck \/ DoScore \/ DoDegen \/ DoLocal \/ DoLScore \/ DoGlobal \/ DoGScore
Spec == MCInit /\ [][MCNext]_vars
EmitDone == (Emit /\ pc' = "ret" /\ pc = "gscore") => PrintT("CASE" \o ToJson([i \in 1..Len(hist') |-> [f |-> hist'[i][1], v |-> hist'[i][2]]]))
Comparable == {a \in acc : a[2] # NAN}
\* the best model is a maximum of all models that passed their checks
Settled == pc \in {"term", "sample", "scheck", "fit", "mcheck", "score", "global", "ret"}
BestIsMax == Settled => IF Comparable = {} THEN best = 0 /\ bs = LOW
                        ELSE <<best, bs>> \in acc /\ \A a \in Comparable : a[2] <= bs
NeverRejected == best \notin bad
Grows == [][pc' # "idle" => bs' >= bs]_vars
===============================================================================
