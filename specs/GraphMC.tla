------------------------------- MODULE GraphMC -------------------------------
EXTENDS Graph, TLC, Json
CONSTANTS NS, Ws, MaxDepth, Emit
VARIABLE hist
vars == <<nv, w, hist>>
view == <<nv, w>>
MCInit == Init /\ hist = <<>>
Log(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
MCNew == hist = <<>> /\ nv = 0 /\ \E n \in NS : New(n) /\ Log([op |-> "new", n |-> n])
MCInsert == \E u, v \in Vertex(nv), x \in Ws : Insert(u, v, x) /\ Log([op |-> "ins", u |-> u, v |-> v, x |-> x])
MCNext == MCNew \/ MCInsert
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
===============================================================================
