--------------------------------- MODULE Csv ---------------------------------
(* The table a CSV text denotes, and how a frame is written as CSV.            *)
EXTENDS DataFrame, TLC

NL == 10
COMMA == 44
QUOTE == 34
\* a field is NA (nothing between the separators), or quoted/unquoted text
Field(q, t) == [q |-> q, t |-> t]
NOFIELD == [q |-> FALSE, t |-> <<>>]

\* reader state: mode, the field being read, the fields of this record, the records
R0 == [m |-> "start", t |-> <<>>, rec |-> <<>>, recs |-> <<>>]
EndField(s, x) == [s EXCEPT !.rec = Append(@, x), !.t = <<>>, !.m = "field"]
EndRec(s) == [s EXCEPT !.recs = Append(@, s.rec), !.rec = <<>>, !.m = "start", !.t = <<>>]
OneColumn(s) == s.recs # <<>> /\ Len(s.recs[1]) = 1
StepChar(s, c) ==
  CASE s.m = "err" -> s
    [] s.m = "start" /\ c = NL -> IF OneColumn(s) THEN EndRec(EndField(s, NOFIELD)) ELSE [s EXCEPT !.m = "err"]
    [] s.m \in {"start", "field"} /\ c = COMMA -> EndField(s, NOFIELD)
    [] s.m = "field" /\ c = NL -> EndRec(EndField(s, NOFIELD))
    [] s.m \in {"start", "field"} /\ c = QUOTE -> [s EXCEPT !.m = "q"]
    [] s.m \in {"start", "field"} -> [s EXCEPT !.m = "un", !.t = <<c>>]
    [] s.m = "un" /\ c = COMMA -> EndField(s, Field(FALSE, s.t))
    [] s.m = "un" /\ c = NL -> EndRec(EndField(s, Field(FALSE, s.t)))
    [] s.m = "un" /\ c = QUOTE -> [s EXCEPT !.m = "err"]
    [] s.m = "un" -> [s EXCEPT !.t = Append(@, c)]
    [] s.m = "q" /\ c = QUOTE -> [s EXCEPT !.m = "qq"]
    [] s.m = "q" -> [s EXCEPT !.t = Append(@, c)]
    [] s.m = "qq" /\ c = QUOTE -> [s EXCEPT !.m = "q", !.t = Append(@, c)]
    [] s.m = "qq" /\ c = COMMA -> EndField(s, Field(TRUE, s.t))
    [] s.m = "qq" /\ c = NL -> EndRec(EndField(s, Field(TRUE, s.t)))
    [] OTHER -> [s EXCEPT !.m = "err"]
AtEnd(s) == CASE s.m \in {"err", "start"} -> s
              [] s.m = "field" -> EndRec(EndField(s, NOFIELD))
              [] s.m = "un" -> EndRec(EndField(s, Field(FALSE, s.t)))
              [] s.m = "qq" -> EndRec(EndField(s, Field(TRUE, s.t)))
              [] OTHER -> [s EXCEPT !.m = "err"]
Read(text) == AtEnd(FoldLeft(StepChar, R0, text))
WellFormed(p) == /\ p.m = "start" /\ p.recs # <<>>
                 /\ \A i \in 1..Len(p.recs) : Len(p.recs[i]) = Len(p.recs[1])

IsNA(x) == x = NOFIELD

\* ---- number syntax
Space == {32, 9, 10, 11, 12, 13}
Dig == 48..57
Trim(t) == LET k == SelectInSeq(t, LAMBDA c : c \notin Space) IN IF k = 0 THEN <<>> ELSE SubSeq(t, k, Len(t))
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
AllDig(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in Dig
NoZeros(t) == LET k == SelectInSeq(t, LAMBDA c : c # 48) IN IF k = 0 THEN <<>> ELSE SubSeq(t, k, Len(t))
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] = b[1] THEN LexLeq(Tail(a), Tail(b)) ELSE a[1] < b[1]
MAXTEXT == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
MINTEXT == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
Neg(t) == t # <<>> /\ t[1] = 45
FitsInt(t) == LET d == NoZeros(Unsigned(t)) IN
                \/ Len(d) < 10
                \/ Len(d) = 10 /\ LexLeq(d, IF Neg(t) THEN MINTEXT ELSE MAXTEXT)
IsInt(t0) == LET t == Trim(t0) IN AllDig(Unsigned(t)) /\ FitsInt(t)
IntValue(t0) == LET t == Trim(t0) d == NoZeros(Unsigned(t)) IN
                IF Neg(t) THEN FoldLeft(LAMBDA a, c : (a * 10) - (c - 48), 0, d)
                ELSE FoldLeft(LAMBDA a, c : (a * 10) + (c - 48), 0, d)
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
INFW == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
NANW == <<110, 97, 110>>
\* decimal reals: digits with at most one point and at least one digit, then an optional exponent
Mantissa(t) == /\ \A i \in 1..Len(t) : t[i] \in Dig \cup {46}
               /\ \E i \in 1..Len(t) : t[i] \in Dig
               /\ Cardinality({i \in 1..Len(t) : t[i] = 46}) <= 1
Decimal(t) == \/ Mantissa(t)
              \/ \E k \in 2..(Len(t) - 1) : /\ t[k] \in {69, 101} /\ Mantissa(SubSeq(t, 1, k - 1))
                                            /\ AllDig(Unsigned(SubSeq(t, k + 1, Len(t))))
IsReal(t0) == LET t == Unsigned(Trim(t0)) l == Lower(t) IN Decimal(t) \/ l \in INFW \/ l = NANW
NamedInf(t0) == Lower(Unsigned(Trim(t0))) \in INFW
\* real values come from a table text -> value computed outside the code under test; an
\* overflowing text (value infinite but not written as such) does not denote a real
Infinite(v) == v \in {<<32752, 0, 0, 0>>, <<65520, 0, 0, 0>>}
RealOf(tab, t) == IF \E i \in 1..Len(tab) : tab[i].t = t THEN tab[CHOOSE i \in 1..Len(tab) : tab[i].t = t].v
                  ELSE <<32752, 0, 0, 0>>
FieldType(tab, x) == IF x.q THEN "string"
                     ELSE IF x.t \in {TRUETEXT, FALSETEXT} THEN "bool"
                     ELSE IF IsInt(x.t) THEN "int"
                     ELSE IF IsReal(x.t) /\ (NamedInf(x.t) \/ ~Infinite(RealOf(tab, x.t))) THEN "double"
                     ELSE "string"
Join(S) == CASE S = {} -> "string"
             [] S = {"int"} -> "int"
             [] S = {"bool"} -> "bool"
             [] S \in {{"double"}, {"int", "double"}} -> "double"
             [] OTHER -> "string"
ValueAs(t, tab, x) == CASE t = "string" -> x.t
                        [] t = "bool" -> IF x.t = TRUETEXT THEN <<1>> ELSE <<0>>
                        [] t = "int" -> <<IntValue(x.t)>>
                        [] t = "double" -> RealOf(tab, x.t)
LoadCol(recs, tab, c) ==
  LET xs == [r \in 1..(Len(recs) - 1) |-> recs[r + 1][c]]
      t == Join({FieldType(tab, xs[r]) : r \in {q \in 1..Len(xs) : ~IsNA(xs[q])}})
  IN [type |-> t, label |-> recs[1][c].t, levels |-> <<>>,
      cells |-> [r \in 1..Len(xs) |-> IF IsNA(xs[r]) THEN NA ELSE ValueAs(t, tab, xs[r])]]
Loaded(recs, tab) == [nr |-> Len(recs) - 1, cols |-> [c \in 1..Len(recs[1]) |-> LoadCol(recs, tab, c)]]
NoDbl(v) == <<>>
AsFactors(g) == [g EXCEPT !.cols = [c \in 1..NC(g) |-> IF @[c].type = "string" THEN Factored(@[c], NoDbl) ELSE @[c]]]

Load(text, tab, fac) == LET p == Read(text) IN
  /\ WellFormed(p)
  /\ Become(IF fac THEN AsFactors(Loaded(p.recs, tab)) ELSE Loaded(p.recs, tab))
LoadFails(text) == ~WellFormed(Read(text)) /\ Fatal

\* ---- what a saved text must denote: the same names, the same missing cells, the same values
CellSaved(t, v, x, tab) ==
  IF v = NA THEN IsNA(x)
  ELSE /\ ~IsNA(x)
       /\ CASE t \in {"string", "factor"} -> x.t = v /\ FieldType(tab, x) = "string"
            [] t = "int" -> ~x.q /\ IsInt(x.t) /\ IntValue(x.t) = v[1]
            [] t = "bool" -> ~x.q /\ x.t = (IF v[1] = 0 THEN FALSETEXT ELSE TRUETEXT)
            [] t = "double" -> /\ ~x.q /\ (IsInt(x.t) \/ FieldType(tab, x) = "double") /\ RealOf(tab, x.t) = v
Saved(g, text, tab) == LET p == Read(text) IN
  /\ WellFormed(p)
  /\ Len(p.recs) = g.nr + 1 /\ Len(p.recs[1]) = NC(g)
  /\ \A c \in 1..NC(g) : p.recs[1][c].t = g.cols[c].label
  /\ \A c \in 1..NC(g), r \in 1..g.nr : CellSaved(g.cols[c].type, Cell(g, r, c), p.recs[r + 1][c], tab)
Save(text, tab) == NC(f) > 0 /\ Saved(f, text, tab) /\ Become(f)

\* ---- a writer, used in the model to show that such a text always exists
Quoted(t) == <<QUOTE>> \o FlattenSeq([i \in 1..Len(t) |-> IF t[i] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<t[i]>>]) \o <<QUOTE>>
CellText(t, v, D(_)) == IF v = NA THEN <<>>
                        ELSE IF t \in {"string", "factor"} THEN Quoted(v) ELSE TextOf(t, v, D)
LineOf(xs) == FlattenSeq([i \in 1..Len(xs) |-> IF i = 1 THEN xs[i] ELSE <<COMMA>> \o xs[i]]) \o <<NL>>
WriteText(g, D(_)) == LineOf([c \in 1..NC(g) |-> Quoted(g.cols[c].label)])
              \o FlattenSeq([r \in 1..g.nr |-> LineOf([c \in 1..NC(g) |-> CellText(g.cols[c].type, Cell(g, r, c), D)])])
==============================================================================
