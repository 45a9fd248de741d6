------------------------------ MODULE CheckersMC ------------------------------
(* Every small two-level picture: what the means along rows and columns and the  *)
(* response are, and what turning and mirroring a picture does to them.  The     *)
(* diagonals are taken from the means by any of the two (witnesses are the        *)
(* recorder's business), so the response is checked for its own laws.             *)
EXTENDS Checkers, TLC, Json
CONSTANTS Sizes, Levels, Radii, Emit
VARIABLES n, pick
vars == <<cvars, n, pick>>
Pictures == UNION {{Gray(s[1], s[2], px) : px \in [1..(s[1] * s[2]) -> Levels]} : s \in Sizes}
SizesDef == {<<1, 1>>, <<2, 2>>, <<3, 2>>, <<1, 4>>}
SizesDeep == {<<1, 1>>, <<3, 3>>, <<4, 2>>, <<2, 5>>}
Flip(x) == [x EXCEPT !.w = x.h, !.h = x.w, !.px = [p \in 1..Len(x.px) |-> x.px[(((p - 1) % x.h) * x.w) + ((p - 1) \div x.h) + 1]]]
MCInit == Init /\ n = 0 /\ pick = "none"
\* the diagonals lie between: any choice of the two others
MCRadon == /\ n = 0 /\ n' = 1
           /\ \E x \in Pictures, r \in Radii, k \in {"same", "rows", "cols"} :
                LET a == RowMeans(x, r)  b == ColMeans(x, r)
                IN /\ img' = x /\ rad' = r /\ pick' = k /\ resp' = <<>>
                   /\ lr' = CASE k = "same" -> <<a, a, a, a>> [] k = "rows" -> <<a, b, a, a>> [] OTHER -> <<a, b, b, b>>
MCScore == n = 1 /\ n' = 2 /\ pick' = pick /\ Score(Response(lr), 0)
MCNext == MCRadon \/ MCScore
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ n' = 2 /\ pick' = "rows") => PrintT("CASE" \o ToJson([w |-> img.w, h |-> img.h, r |-> rad, px |-> img.px]))
\* laws
Mean == n >= 1 => \A i \in 1..4 : \A p \in 1..Len(img.px) : lr[i].px[p] \in MinPx(img)..MaxPx(img)
NoRadius == (n >= 1 /\ rad = 0) => lr[1] = img /\ lr[2] = img
Flipped == n >= 1 => RowMeans(Flip(img), rad) = Flip(ColMeans(img, rad))
Bounded == n = 2 => \A p \in 1..Len(resp) : resp[p] >= 0 /\ resp[p] <= 16 * 65025
Flat == (n = 2 /\ \A p \in 1..Len(img.px) : img.px[p] = img.px[1]) => \A p \in 1..Len(resp) : resp[p] = 0
Quiet == (n = 2 /\ pick = "same") => \A p \in 1..Len(resp) : resp[p] = 0
SameEitherWay == (n = 2 /\ pick # "same") => resp = Response(<<lr[2], lr[1], lr[2], lr[1]>>)
===============================================================================
