-------------------------------- MODULE BitsMC --------------------------------
EXTENDS Bits, TLC, Json
CONSTANTS NS, Emit, MaxDepth
VARIABLE hist
vars == <<n, bits, hist>>
view == <<n, bits>>
\* positions that matter: both ends of each byte and of the array
Pos == {i \in Index(n) : i < n /\ (i % 8 \in {0, 7} \/ i = n - 1)}
MCInit == Init /\ hist = <<>>
Log(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
MCNew == hist = <<>> /\ \E k \in NS : New(k) /\ Log([op |-> "new", i |-> k, v |-> 0])
MCZero == n > 0 /\ Zero /\ Log([op |-> "zero", i |-> 0, v |-> 0])
MCSet == \E i \in Pos, v \in {0, 1} : Set(i, v) /\ Log([op |-> "set", i |-> i, v |-> v])
MCNext == MCNew \/ MCZero \/ MCSet
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
\* setting one bit leaves every other bit alone
OnlyThatBit == [][\A i \in Pos, v \in {0, 1} : Set(i, v) => \A j \in Index(n) \ {i} : bits'[j] = bits[j]]_<<n, bits>>
===============================================================================
