------------------------------- MODULE StatsMC -------------------------------
EXTENDS Stats, TLC, Json
CONSTANTS Values, MaxLen, Emit
MCAdd == Len(x) < MaxLen /\ \E v \in Values : Add(v)
MCNext == MCAdd
MCSpec == StatsInit /\ [][MCNext]_svars
EmitCase == Emit => PrintT("CASE" \o ToJson([x |-> x']))
Few == {-1, 0, 3}
More == {-2, -1, 0, 1, 5}
===============================================================================
