------------------------------- MODULE DeviceMC -------------------------------
(* Every short history of writing through a stream, for every capacity. *)
EXTENDS Device, TLC, Json
CONSTANTS MaxLen, Caps, Sizes, Emit
VARIABLES hist, verdict
vars == <<cap, file, stream, blocks, hist, verdict>>
NoV == [done |-> FALSE, ok |-> FALSE, given |-> 0, told |-> FALSE]
H(op) == hist' = Append(hist, op)
MCInit == DeviceInit /\ hist = <<>> /\ verdict = NoV
MCLimit == \E c \in Caps : c # cap /\ Limit(c) /\ H(<<"limit", c>>) /\ verdict' = NoV
MCOpen == \E b \in {0, 1} : Open(b = 1) /\ H(<<"open", b>>) /\ verdict' = NoV
MCPut == \E n \in Sizes : \E ok \in BOOLEAN : Put(n, ok) /\ H(<<"put", n>>) /\ UNCHANGED verdict
MCClose == \E ok \in BOOLEAN : Close(ok) /\ H(<<"close">>) /\ verdict' = [done |-> TRUE, ok |-> ok, given |-> stream.given, told |-> stream.told]
MCNext == Len(hist) < MaxLen /\ (MCLimit \/ MCOpen \/ MCPut \/ MCClose)
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ Len(hist') = MaxLen) => PrintT("CASE" \o ToJson(hist'))
\* a stream that closed well delivered everything; one that did not was given more than there was room for
Honest == verdict.done => (verdict.ok <=> (verdict.given <= cap)) /\ (verdict.ok => file = verdict.given /\ ~verdict.told)
===============================================================================
