------------------------------- MODULE SamplersMC -------------------------------
EXTENDS Samplers, TLC, Json
CONSTANTS Seeds, Counts, MaxOps, Emit
VARIABLE hist
vars == <<smp, hist>>
MCInit == SInit /\ hist = <<>>
H(op, i, a) == Len(hist) < MaxOps /\ hist' = Append(hist, [op |-> op, i |-> i, a |-> a])
DoMake == \E i \in Ids, s \in Seeds : ~smp[i].ex /\ Make(i, s) /\ H("new", i, s)
DoReseed == \E i \in Ids, s \in Seeds : Reseed(i, s) /\ H("seed", i, s)
DoDraw == \E i \in Ids, n \in Counts : Advance(i, n) /\ H("draw", i, n)
DoDiscard == \E i \in Ids : Discard(i) /\ H("free", i, 0)
Next == DoMake \/ DoReseed \/ DoDraw \/ DoDiscard
Spec == MCInit /\ [][Next]_vars
EmitDone == (Emit /\ Len(hist') = MaxOps) => PrintT("CASE" \o ToJson(hist'))
TypeOK == \A i \in Ids : smp[i].pos >= 0 /\ (~smp[i].ex => smp[i] = None)
\* an operation on one sampler leaves the others alone
Independent == [][\A i, j \in Ids : (smp'[i] # smp[i] /\ smp'[j] # smp[j]) => i = j]_vars
===============================================================================
