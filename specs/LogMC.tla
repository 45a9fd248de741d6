--------------------------------- MODULE LogMC ---------------------------------
(* Every short history of verbosity and handler changes, messages and fatal      *)
(* errors, with the messages reduced to their levels.                            *)
EXTENDS Log, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES hist, said
vars == <<verb, handler, tty, shown, over, hist, said>>
H(op) == hist' = Append(hist, op)
T == <<116>>
MCInit == LogInit /\ hist = <<>> /\ said = <<>>
MCVerb == \E v \in 0..3 : v # verb /\ Verbosity(v) /\ H(<<"verb", v>>) /\ UNCHANGED said
MCHandle == \E h \in Handlers : h # handler /\ Handle(h) /\ H(<<"handler", h>>) /\ UNCHANGED said
MCSay == \E n \in 0..3 : Say(n, T, T, 1, <<>>, IF Passes(n) THEN Line(n, T, T, 1, <<>>) ELSE <<>>)
                         /\ H(<<"say", n>>) /\ said' = Append(said, <<n, verb>>)
MCFatal == Fatal(T, T, 1, <<>>, handler, <<>>, IF handler = "default" THEN Line(4, T, T, 1, <<>>) ELSE <<>>) /\ H(<<"fatal">>) /\ UNCHANGED said
MCNext == Len(hist) < MaxLen /\ (MCVerb \/ MCHandle \/ MCSay \/ MCFatal)
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ (Len(hist') = MaxLen \/ over' # "no")) => PrintT("CASE" \o ToJson(hist'))
\* what is shown is what was said, in order, less what was excluded when it was said
Kept == SelectSeq(said, LAMBDA m : m[1] >= m[2])
InOrder == LET s == SelectSeq(shown, LAMBDA n : n < 4) IN Len(s) = Len(Kept) /\ \A i \in 1..Len(s) : s[i] = Kept[i][1]
Errors(s) == Len(SelectSeq(s, LAMBDA n : n = 3))
ErrorsShown == Errors(shown) = Len(SelectSeq(said, LAMBDA m : m[1] = 3))
FatalShown == (over = "ended" => shown # <<>> /\ shown[Len(shown)] = 4) /\ (over = "handled" => handler # "default")
===============================================================================
