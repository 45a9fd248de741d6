------------------------------- MODULE ColorMC -------------------------------
EXTENDS Color, TLC, Json
CONSTANTS Values, Len2, MapStep, Emit
VARIABLE m
mvars == <<cvars, m>>
Planes(S) == UNION {[1..n -> S] : n \in 1..Len2}
Px == {<<r, g, b, a>> : r \in Values, g \in Values, b \in Values, a \in {0, 200}}
MCRgba == gray = <<>> /\ m = <<"none", 0>> /\ \E g \in Planes(Values) : DoRgba(g) /\ UNCHANGED m
MCGray == gray = <<>> /\ m = <<"none", 0>> /\ \E c \in Px : DoGray(<<c>>) /\ UNCHANGED m
MCMap == gray = <<>> /\ m = <<"none", 0>> /\ \E k \in 1..5 : \E q \in 0..(Q \div MapStep) : m' = <<Maps[k], q * MapStep>> /\ UNCHANGED cvars
MCNext == MCRgba \/ MCGray \/ MCMap \/ (Back /\ UNCHANGED m)
MCSpec == ColorInit /\ m = <<"none", 0>> /\ [][MCNext]_mvars
MapRange == m[1] # "none" => \A ch \in 1..3 : Level(m[1], m[2], ch) \in 0..100000
\* between neighbouring values a map moves at most one table step
Steady == m[1] \notin {"none", "gray"} => \A ch \in 1..3 : LET d == Level(m[1], m[2], ch) - Level(m[1], m[2] + 8, ch) IN d < 3000 /\ d > -3000
\* viridis, plasma and magma get brighter with the value
Luminance(nm, q) == (2126 * (Level(nm, q, 1) \div 100)) + (7152 * (Level(nm, q, 2) \div 100)) + (722 * (Level(nm, q, 3) \div 100))
Brighter == m[1] \in {"viridis", "magma", "cubehelix"} /\ m[2] + 64 <= Q => Luminance(m[1], m[2] + 64) > Luminance(m[1], m[2])
EmitCase == (Emit /\ gray = <<>> /\ m' = m) => PrintT("CASE" \o ToJson([g |-> gray', c |-> rgba']))
Few == {0, 7, 100, 255}
Many == {0, 1, 7, 30, 60, 100, 127, 128, 200, 254, 255}
===============================================================================
