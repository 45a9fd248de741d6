------------------------------ MODULE JsonLogMC ------------------------------
EXTENDS JsonTree, Json
CONSTANTS MaxOps, Emit
VARIABLE hist
vars == <<nodes, owner, streams, hist>>
Did(r) == hist' = Append(hist, r)
Ids == {0, 31}
Keys == {<<97>>, <<98>>}
DoAdd == \E i \in Ids, k \in Keys : LogAdd(i, k, LogLeaf("int", <<Len(hist)>>)) /\ Did([op |-> "log", id |-> i, key |-> k, v |-> Len(hist)])
DoArr == \E i \in Ids, k \in Keys : LogArray(i, k, LogLeaf("int", <<Len(hist)>>)) /\ Did([op |-> "loga", id |-> i, key |-> k, v |-> Len(hist)])
DoClear == \E i \in Ids : LogClear(i) /\ Did([op |-> "logclear", id |-> i])
DoFree == LogFree /\ Did([op |-> "logfree"])
Next == DoAdd \/ DoArr \/ DoClear \/ DoFree
MCSpec == JInit /\ hist = <<>> /\ [][Next]_vars
Bound == Len(hist) < MaxOps
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
\* streams are independent: each shows exactly what was logged to it since it was last cleared
Since(i) == LET k == SelectLastInSeq(hist, LAMBDA r : r.op = "logfree" \/ (r.op = "logclear" /\ r.id = i))
            IN SelectSeq(SubSeq(hist, k + 1, Len(hist)), LAMBDA r : r.op \in {"log", "loga"} /\ r.id = i)
RECURSIVE Flat(_)
Flat(n) == IF n.c = <<>> THEN <<n.t>> ELSE FlattenSeq([j \in 1..Len(n.c) |-> Flat(n.c[j])])
Ints(n) == SelectSeq(Flat(n), LAMBDA t : t # <<>> /\ t[1] \in Digit)
Complete == \A i \in Ids : ToSet(Ints(LogTree(i))) = {IntText(Since(i)[j].v) : j \in 1..Len(Since(i))}
StreamsDistinct == \A i, j \in Ids : i # j => streams[i] = 0 \/ streams[i] # streams[j]
Printable == \A i \in Ids : Denotes(Text(LogTree(i)), LogTree(i))
==============================================================================
