------------------------------- MODULE FrameMC -------------------------------
EXTENDS Csv, Json
CONSTANTS MaxDepth, MaxRows, MaxCols, Emit, MCTypes
VARIABLE hist
vars == <<f, dead, hist>>
Log(r) == hist' = Append(hist, r)
Labels == {<<97>>, <<44, 34>>}
ValsOf(t) == CASE t \in {"string", "factor"} -> {<<>>, <<120>>, <<34, 44>>}
               [] t = "int" -> {<<7>>, <<0 - 12>>}
               [] t = "bool" -> {<<0>>, <<1>>}
               [] t = "double" -> {<<16368, 0, 0, 0>>}
D1(v) == <<49>>
Tab == <<[t |-> <<49>>, v |-> <<16368, 0, 0, 0>>], [t |-> <<55>>, v |-> <<16412, 0, 0, 0>>]>>
Rec(op, t, r, c, v) == [op |-> op, t |-> t, r |-> r, c |-> c, v |-> v]
MCInit == Init /\ hist = <<>>
MCAddColumn == \E t \in MCTypes, lab \in Labels : NC(f) < MaxCols /\ AddColumn(t, lab) /\ Log(Rec("addcol", t, 0, 0, lab))
MCAddRow == f.nr < MaxRows /\ AddRow /\ Log(Rec("addrow", "", 0, 0, <<>>))
MCAppendRow == /\ f.nr < MaxRows /\ NC(f) \in 1..2
               /\ \E vs \in {s \in [1..NC(f) -> UNION {ValsOf(t) : t \in MCTypes}] :
                               \A c \in 1..NC(f) : s[c] \in ValsOf(f.cols[c].type)} :
                    AppendRow(vs) /\ hist' = Append(hist, [op |-> "append", t |-> "", r |-> 0, c |-> 0, v |-> vs])
MCSet == \E t \in MCTypes, r \in 1..f.nr, c \in 1..NC(f) : \E v \in ValsOf(t) : Set(t, r, c, v) /\ Log(Rec("set", t, r, c, v))
MCSetWrong == \E t \in MCTypes, r \in 1..f.nr, c \in 1..NC(f) : \E v \in ValsOf(t) : SetWrong(t, r, c) /\ Log(Rec("set", t, r, c, v))
MCSetNA == \E r \in 1..f.nr, c \in 1..NC(f) : SetNA(r, c) /\ Log(Rec("setna", "", r, c, <<>>))
MCGet == \E t \in MCTypes, r \in 1..f.nr, c \in 1..NC(f) : Get(t, r, c) /\ Log(Rec("get", t, r, c, <<>>))
MCGetWrong == \E t \in MCTypes, r \in 1..f.nr, c \in 1..NC(f) : GetWrong(t, r, c) /\ Log(Rec("get", t, r, c, <<>>))
MCMakeFactor == \E c \in 1..NC(f) : MakeFactor(c, D1) /\ Log(Rec("factor", "", 0, c, <<>>))
MCSave == NC(f) > 0 /\ Live /\ Become(f) /\ Log(Rec("save", "", 0, 0, <<>>))
MCNext == MCAddColumn \/ MCAddRow \/ MCAppendRow \/ MCSet \/ MCSetWrong \/ MCSetNA \/ MCGet \/ MCGetWrong
          \/ MCMakeFactor \/ MCSave
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
\* every frame can be written so that reading the text gives it back
RoundTrip == NC(f) > 0 => /\ Saved(f, WriteText(f, D1), Tab)
                          /\ LET g == Loaded(Read(WriteText(f, D1)).recs, Tab) IN
                               /\ g.nr = f.nr /\ NC(g) = NC(f)
                               /\ \A c \in 1..NC(f), r \in 1..f.nr :
                                    LET v == Cell(f, r, c) w == Cell(g, r, c) IN
                                    IF v = NA THEN w = NA
                                    ELSE w # NA /\ TextOf(g.cols[c].type, w, D1) = TextOf(f.cols[c].type, v, D1)
Kept == [][OthersKept /\ LevelsGrow]_<<f, dead>>
View == <<f, dead>>
==============================================================================
