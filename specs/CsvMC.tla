-------------------------------- MODULE CsvMC --------------------------------
(* Every text up to a length over an alphabet: reading is total and agrees     *)
(* with an independent, declarative description of well-formed CSV.            *)
EXTENDS Csv, Json
CONSTANTS MaxLen, Emit, Alphabet
VARIABLE text
vars == <<f, dead, text>>
CsvInit == Init /\ text = <<>>
Grow == \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED fvars
CsvSpec == CsvInit /\ [][Grow]_vars
Bound == Len(text) < MaxLen
EmitCase == Emit => PrintT("CASE" \o ToJson(text'))
Tab == <<[t |-> <<49>>, v |-> <<16368, 0, 0, 0>>], [t |-> <<46, 49>>, v |-> <<16313, 39321, 39321, 39322>>],
         [t |-> <<49, 46>>, v |-> <<16368, 0, 0, 0>>]>>
\* a character is a separator exactly when an even number of quotes precedes it
Quotes(k) == Cardinality({i \in 1..k : text[i] = QUOTE})
Outside(k) == Quotes(k) % 2 = 0
Result == Read(text)
BalancedQuotes == Result.m = "start" => Quotes(Len(text)) % 2 = 0
RecordCount == Result.m = "start" =>
   Len(Result.recs) = Cardinality({i \in 1..Len(text) : text[i] = NL /\ Outside(i)})
                      + (IF text # <<>> /\ (text[Len(text)] # NL \/ ~Outside(Len(text))) THEN 1 ELSE 0)
FieldCount == Result.m = "start" =>
   FoldLeft(LAMBDA a, r : a + Len(r), 0, Result.recs)
     = Len(Result.recs) + Cardinality({i \in 1..Len(text) : text[i] = COMMA /\ Outside(i)})
\* rewriting what was read and reading again gives the same fields
Rewrite(recs) == FlattenSeq([i \in 1..Len(recs) |-> LineOf([c \in 1..Len(recs[i]) |->
                   IF recs[i][c].q THEN Quoted(recs[i][c].t) ELSE recs[i][c].t])])
Stable == WellFormed(Result) => Read(Rewrite(Result.recs)) = Result
TypesHold == WellFormed(Result) =>
   LET g == Loaded(Result.recs, Tab) IN \A c \in 1..NC(g) : g.cols[c].type \in {"string", "int", "double", "bool"}
==============================================================================
