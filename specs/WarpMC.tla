-------------------------------- MODULE WarpMC --------------------------------
EXTENDS Warp, TLC, Json
CONSTANTS Sizes, Values, Ts, Emit
MCInit == \E s \in Sizes : \E p \in [1..(s[1] * s[2]) -> Values] : WarpInit([w |-> s[1], h |-> s[2], p |-> p])
MCWarp == out = src /\ \E t \in Ts, m \in 0..4 : DoWarp(3, 3, t, m) /\ (Emit => PrintT("CASE" \o ToJson([w |-> src.w, h |-> src.h, p |-> src.p, t |-> t, m |-> m])))
MCNext == MCWarp
MCSpec == MCInit /\ [][MCNext]_wvars
Small == {<<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>>}
Larger == Small \cup {<<3, 3>>, <<4, 2>>}
Two == {0, 200}
Maps == {<<4, 0, 0, 4, 0, 0>>, <<0, 4, -4, 0, 7, -9>>, <<2, 1, -3, 5, -6, 3>>, <<16, 0, 0, -12, -20, 13>>, <<4, 0, 0, 4, -2, -3>>}
===============================================================================
