------------------------------ MODULE FiltersMC ------------------------------
EXTENDS Filters, TLC, Json
CONSTANTS Values, MaxLen, MaxBorder, Emit
Lines == UNION {[1..n -> Values] : n \in 1..MaxLen}
Kernels == {<<2, 1>>, <<3, -1>>, <<4, 2, 1>>, <<1, 0, 5>>}
MCLoad == buf = <<>> /\ \E d \in Lines, b \in 0..MaxBorder, mode \in 0..2 : Load(d, b, mode)
MCSym == border > 0 /\ \E k \in Kernels : Sym(k)
MCBox == border > 0 /\ Box(border)
MCNext == MCLoad \/ MCSym \/ MCBox
MCSpec == FilterInit /\ [][MCNext]_fvars
EmitCase == (Emit /\ buf = <<>>) => PrintT("CASE" \o ToJson([d |-> data', b |-> border', u |-> buf']))
Few == {0, 3, 7}
===============================================================================
