-------------------------------- MODULE CorrMC --------------------------------
(* Every short history of correspondence sets. *)
EXTENDS Corr, TLC, Json
CONSTANTS MaxLen, MaxSize, Emit
VARIABLES hist, n, given
vars == <<set, hist, n, given>>
H(op) == hist' = Append(hist, op)
Costs == <<3, 1, 3, 2, 1>>
NewRow(k) == Row(32 * k, 64, 96, 32 * k, Costs[k], 32, 16, k, 10 + k, FALSE)
MCInit == set = [s \in Slots |-> None] /\ hist = <<>> /\ n = 0 /\ given = {}
Keep == UNCHANGED <<n, given>>
MCNew == \E s \in Slots : ~Live(s) /\ New(s) /\ H(<<"new", s>>) /\ Keep
MCClone == \E s, d \in Slots : s # d /\ Clone(d, s) /\ H(<<"clone", d, s>>) /\ Keep
MCAdd == \E s \in Slots : n < Len(Costs) /\ Len(set[s].m) < MaxSize /\ Add(s, NewRow(n + 1)) /\ n' = n + 1 /\ given' = given \cup {NewRow(n + 1)} /\ H(<<"add", s, n + 1>>)
MCMark == \E s \in Slots : \E k \in 1..Len(set[s].m) : Mark(s, k, ~set[s].m[k].inl) /\ H(<<"mark", s, k>>) /\ Keep
MCClear == \E s \in Slots : set[s].m # <<>> /\ Clear(s) /\ H(<<"clear", s>>) /\ Keep
MCNorm == \E s \in Slots : Normalize(s) /\ H(<<"norm", s>>) /\ Keep
MCDen == \E s \in Slots : Denormalize(s) /\ H(<<"den", s>>) /\ Keep
Orders(m) == {q \in [1..Len(m) -> {m[i] : i \in 1..Len(m)}] : Reorders(m, q) /\ Ordered(q)}
MCSort == \E s \in Slots : Len(set[s].m) > 1 /\ \E q \in Orders(set[s].m) : Sort(s, q) /\ H(<<"sort", s>>) /\ Keep
MCNext == Len(hist) < MaxLen /\ (MCNew \/ MCClone \/ MCAdd \/ MCMark \/ MCClear \/ MCNorm \/ MCDen \/ MCSort)
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ Len(hist') = MaxLen) => PrintT("CASE" \o ToJson(hist'))
\* nothing is in a set that was not added to some set; marks are all that changes
FromGiven == \A s \in Slots : \A i \in 1..Len(set[s].m) : \E r \in given : [set[s].m[i] EXCEPT !.inl = FALSE] = r
Once == \A s \in Slots : \A i, j \in 1..Len(set[s].m) : i # j => set[s].m[i].id # set[s].m[j].id
\* one operation touches one set, and the two representations never change who is in it
OneAtATime == [][\E s \in Slots : \A d \in Slots : d # s => set'[d] = set[d]]_vars
SameMembers == [][\A s \in Slots : (set[s].live /\ set'[s].z # set[s].z) => (set'[s].m = set[s].m \/ set'[s].m = <<>> \/ hist'[Len(hist')][1] = "clone")]_vars
SortKeeps == [][(hist' # hist /\ hist'[Len(hist')][1] = "sort") => \A s \in Slots : Reorders(set[s].m, set'[s].m)]_vars
===============================================================================
