------------------------------ MODULE DataFrame ------------------------------
(* A typed table.  A frame has rows and columns; a column has a type, a label, *)
(* one cell per row and, for factor columns, an ordered list of levels.        *)
(* Cells are NA or a sequence of integers: the bytes of a text, <<n>> for an   *)
(* integer, <<0>>/<<1>> for a boolean, four 16-bit pieces for a real.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
CONSTANT NA
VARIABLES f,         \* the frame [nr, cols]
          dead       \* the fatal handler was reached: nothing may follow
fvars == <<f, dead>>

Types == {"string", "int", "double", "bool", "factor"}
Empty == [nr |-> 0, cols |-> <<>>]
NAs(n) == [i \in 1..n |-> NA]
Column(t, lab, n) == [type |-> t, label |-> lab, cells |-> NAs(n), levels |-> <<>>]
NC(g) == Len(g.cols)
Cell(g, r, c) == g.cols[c].cells[r]
Index(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
               ELSE 0

WithCol(g, t, lab) == [g EXCEPT !.cols = Append(@, Column(t, lab, g.nr))]
WithCols(g, ts, labs) == [g EXCEPT !.cols = @ \o [i \in 1..Len(ts) |-> Column(ts[i], labs[i], g.nr)]]
WithRow(g) == [nr |-> g.nr + 1, cols |-> [c \in 1..NC(g) |-> [g.cols[c] EXCEPT !.cells = Append(@, NA)]]]
\* a factor column remembers every label it was ever given, in order of first appearance
PutCol(col, r, v) == [col EXCEPT !.cells[r] = v,
                                 !.levels = IF col.type = "factor" /\ Index(@, v) = 0 THEN Append(@, v) ELSE @]
Put(g, r, c, v) == [g EXCEPT !.cols[c] = PutCol(@, r, v)]
PutRow(g, r, vs) == [g EXCEPT !.cols = [c \in 1..NC(g) |-> PutCol(@[c], r, vs[c])]]
Clear(g, r, c) == [g EXCEPT !.cols[c].cells[r] = NA]

Digits(n) == LET F[k \in Nat] == IF k < 10 THEN <<48 + k>> ELSE Append(F[k \div 10], 48 + (k % 10)) IN F[n]
IntText(n) == IF n >= 0 THEN Digits(n)
              ELSE IF n = (0 - 2147483647) - 1 THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
              ELSE <<45>> \o Digits(0 - n)
TRUETEXT == <<116, 114, 117, 101>>
FALSETEXT == <<102, 97, 108, 115, 101>>
\* the text a value of a column is known by; DblText is a table of real -> text
TextOf(t, v, DblText(_)) == CASE t \in {"string", "factor"} -> v
                              [] t = "int" -> IntText(v[1])
                              [] t = "bool" -> IF v[1] = 0 THEN FALSETEXT ELSE TRUETEXT
                              [] t = "double" -> DblText(v)
Factored(col, DblText(_)) ==
  IF col.type = "factor" THEN col
  ELSE FoldLeft(LAMBDA k, r : IF col.cells[r] = NA THEN k ELSE PutCol(k, r, TextOf(col.type, col.cells[r], DblText)),
                Column("factor", col.label, Len(col.cells)), [r \in 1..Len(col.cells) |-> r])

Live == ~dead
Init == f = Empty /\ dead = FALSE
Fatal == Live /\ dead' = TRUE /\ UNCHANGED f
Become(g) == Live /\ f' = g /\ UNCHANGED dead
AddColumn(t, lab) == Become(WithCol(f, t, lab))
AddColumns(ts, labs) == Become(WithCols(f, ts, labs))
AddRow == Become(WithRow(f))
AppendRow(vs) == Become(PutRow(WithRow(f), f.nr + 1, vs))
SetRow(r, vs) == r \in 1..f.nr /\ Become(PutRow(f, r, vs))
Has(r, c) == r \in 1..f.nr /\ c \in 1..NC(f)
Set(t, r, c, v) == Has(r, c) /\ t = f.cols[c].type /\ Become(Put(f, r, c, v))
SetWrong(t, r, c) == Has(r, c) /\ t # f.cols[c].type /\ Fatal
SetNA(r, c) == Has(r, c) /\ Become(Clear(f, r, c))
Get(t, r, c) == Has(r, c) /\ t = f.cols[c].type /\ Cell(f, r, c) # NA /\ Become(f)
GetWrong(t, r, c) == Has(r, c) /\ (t # f.cols[c].type \/ Cell(f, r, c) = NA) /\ Fatal
MakeFactor(c, DblText(_)) == c \in 1..NC(f) /\ Become([f EXCEPT !.cols[c] = Factored(@, DblText)])

Rectangular == \A c \in 1..NC(f) : Len(f.cols[c].cells) = f.nr
LevelsSound == \A c \in 1..NC(f) : LET k == f.cols[c] IN
                 IF k.type = "factor"
                 THEN /\ \A r \in 1..f.nr : k.cells[r] = NA \/ Index(k.levels, k.cells[r]) # 0
                      /\ \A i, j \in 1..Len(k.levels) : k.levels[i] = k.levels[j] => i = j
                 ELSE k.levels = <<>>
FrameInv == Rectangular /\ LevelsSound
\* nothing but the cells named by an operation ever changes (action property)
OthersKept == \A c \in 1..NC(f) : c <= NC(f') /\ f'.cols[c].label = f.cols[c].label
LevelsGrow == \A c \in 1..NC(f) : (c <= NC(f') /\ f.cols[c].type = "factor") => IsPrefix(f.cols[c].levels, f'.cols[c].levels)
==============================================================================
