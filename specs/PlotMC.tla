-------------------------------- MODULE PlotMC ---------------------------------
(* Histories of calls on two plots; what is in force is what was last asked for. *)
EXTENDS Plot, Json
CONSTANTS MaxLen, Emit
VARIABLES hist
vars == <<plots, hist>>
T == {"a", "b"}
M == 1000000
Calls == [op : {"title", "xlabel", "ylabel"}, t : T] \cup {[op |-> "labels", t |-> "a", x |-> "b", y |-> "a"], [op |-> "window", w |-> 3 * M, h |-> 2 * M, name |-> "b", id |-> 1],
          [op |-> "svg", w |-> 2 * M, h |-> M, name |-> "a", file |-> "b"], [op |-> "pdf", w |-> 1500000, h |-> M, file |-> "a"], [op |-> "eps", w |-> M, h |-> 250000, file |-> "b"],
          [op |-> "ascii", w |-> 9 * M, h |-> 4 * M, feed |-> FALSE], [op |-> "frame", label |-> "d", rows |-> <<"r">>], [op |-> "inline", rows |-> <<"r">>]}
         \cup {[op |-> "terminal", type |-> ty, w |-> 2500000, h |-> 3 * M, name |-> "a", id |-> 2] : ty \in {"window", "svg", "pdf", "eps", "ascii"}}
MCInit == PlotInit /\ hist = <<>>
MCNew == \E p \in Plots : New(p, FALSE) /\ hist' = Append(hist, [p |-> p, op |-> "new"])
MCCall == \E p \in Plots, c \in Calls : Call(p, c) /\ hist' = Append(hist, [p |-> p, op |-> "call", c |-> c])
MCFree == \E p \in Plots : Free(p) /\ hist' = Append(hist, [p |-> p, op |-> "free"])
MCNext == Len(hist) < MaxLen /\ (MCNew \/ MCCall \/ MCFree)
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ Len(hist') = MaxLen) => PrintT("CASE" \o ToJson(hist'))
\* the last call that concerns it decides; plots do not disturb each other
Of(p) == LET a == {i \in 1..Len(hist) : hist[i].p = p /\ hist[i].op = "new"} IN IF a = {} THEN 0 ELSE CHOOSE i \in a : \A j \in a : j <= i
LastOf(p, ops) == LET a == {i \in (Of(p) + 1)..Len(hist) : hist[i].p = p /\ hist[i].op = "call" /\ hist[i].c.op \in ops} IN IF a = {} THEN 0 ELSE CHOOSE i \in a : \A j \in a : j <= i
LastWins == \A p \in Plots : plots[p].ex =>
    LET t == LastOf(p, {"title", "labels"})
        k == LastOf(p, {"window", "svg", "pdf", "eps", "ascii", "terminal"})
        n == Of(p)
    IN /\ plots[p].s.title = (IF t = 0 THEN None ELSE hist[t].c.t)
       /\ plots[p].s.term = None <=> k = 0
       /\ Len(plots[p].s.data) = Len(SelectSeq(hist, LAMBDA h : h.p = p /\ h.op = "call" /\ h.c.op = "frame")) \/ n # 1
       /\ plots[p].s.ok
===============================================================================
