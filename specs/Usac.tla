--------------------------------- MODULE Usac ---------------------------------
(* The sample-consensus loop (nx_usac).  The estimator is a protocol between   *)
(* the loop and the nine functions of its configuration: the loop decides which*)
(* function is asked next and with which model; the functions' answers are the *)
(* environment's.  Model 0 is the all-zero model, LOW the initial score.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS LOW,      \* score of "no model yet", below every score
          NAN       \* a score that compares with nothing
VARIABLES pc,       \* which function is asked next
          best, bs, \* best model so far and its score
          todo,     \* models of the current sample not looked at yet
          cur, cs,  \* model in hand and its score
          ref       \* the refined model in hand
uvars == <<pc, best, bs, todo, cur, cs, ref>>
Better(a, b) == a # NAN /\ a > b
Idle == pc = "idle" /\ best = 0 /\ bs = LOW /\ todo = <<>> /\ cur = 0 /\ cs = LOW /\ ref = 0
Start == pc = "idle" /\ pc' = "term" /\ best' = 0 /\ bs' = LOW /\ todo' = <<>> /\ cur' = 0 /\ cs' = LOW /\ ref' = 0
Term(b, s, stop) == pc = "term" /\ b = best /\ s = bs /\ pc' = (IF stop THEN "global" ELSE "sample") /\ UNCHANGED <<best, bs, todo, cur, cs, ref>>
Sample == pc = "sample" /\ pc' = "scheck" /\ UNCHANGED <<best, bs, todo, cur, cs, ref>>
SCheck(ok) == pc = "scheck" /\ pc' = (IF ok THEN "fit" ELSE "term") /\ UNCHANGED <<best, bs, todo, cur, cs, ref>>
Next_(t) == IF t = <<>> THEN "term" ELSE "mcheck"
Fit(ms) == pc = "fit" /\ todo' = ms /\ pc' = Next_(ms) /\ UNCHANGED <<best, bs, cur, cs, ref>>
MCheck(m, ok) == /\ pc = "mcheck" /\ m = Head(todo) /\ todo' = Tail(todo)
                 /\ cur' = m /\ pc' = (IF ok THEN "score" ELSE Next_(Tail(todo))) /\ UNCHANGED <<best, bs, cs, ref>>
Score(m, v) == /\ pc = "score" /\ m = cur /\ cs' = v
               /\ pc' = (IF Better(v, bs) THEN "degen" ELSE Next_(todo)) /\ UNCHANGED <<best, bs, todo, cur, ref>>
Degen(m, ok) == pc = "degen" /\ m = cur /\ pc' = (IF ok THEN "local" ELSE Next_(todo)) /\ UNCHANGED <<best, bs, todo, cur, cs, ref>>
\* no refinement: the model in hand becomes the best one
Local(m, ok, r) == /\ pc = "local" /\ m = cur
                   /\ IF ok THEN ref' = r /\ pc' = "lscore" /\ UNCHANGED <<best, bs>>
                            ELSE best' = cur /\ bs' = cs /\ pc' = Next_(todo) /\ UNCHANGED ref
                   /\ UNCHANGED <<todo, cur, cs>>
LScore(m, v) == /\ pc = "lscore" /\ m = ref
                /\ IF Better(v, cs) THEN best' = ref /\ bs' = v ELSE best' = cur /\ bs' = cs
                /\ pc' = Next_(todo) /\ UNCHANGED <<todo, cur, cs, ref>>
Global(m, r) == pc = "global" /\ m = best /\ ref' = r /\ pc' = "gscore" /\ UNCHANGED <<best, bs, todo, cur, cs>>
GScore(m, v) == /\ pc = "gscore" /\ m = ref
                /\ (IF Better(v, bs) THEN best' = ref /\ bs' = v ELSE UNCHANGED <<best, bs>>)
                /\ pc' = "ret" /\ UNCHANGED <<todo, cur, cs, ref>>
Return(b, s) == pc = "ret" /\ b = best /\ s = bs /\ pc' = "idle" /\ best' = 0 /\ bs' = LOW /\ todo' = <<>> /\ cur' = 0 /\ cs' = LOW /\ ref' = 0
===============================================================================
