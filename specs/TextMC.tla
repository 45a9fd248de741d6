-------------------------------- MODULE TextMC --------------------------------
EXTENDS Text, TLC, Json
CONSTANTS Chars, MaxLen, MaxOps, Emit
VARIABLES hist
vars == <<data, pos, hist>>
Strings(n) == UNION {[1..k -> Chars] : k \in 0..n}
\* every short text survives both encodings
ASSUME \A s \in Strings(MaxLen) : RoundTrip(s) /\ (Emit => PrintT("CASE" \o ToJson([s |-> s])))
\* no two texts share an encoding
ASSUME \A s, t \in Strings(2) : s # t => Readable(s) # Readable(t) /\ DoubleQuoted(s) # DoubleQuoted(t)
Texts == {<<>>, <<97>>, <<98, 10>>, <<10, 10, 99>>}
Log(r) == hist' = Append(hist, r)
MCInit == StreamInit /\ hist = <<>>
MCWrite == \E s \in Texts : Put(Record(s)) /\ Log([op |-> "strwrite", s |-> s])
MCRaw == \E s \in Texts \ {<<>>} : Put(s) /\ Log([op |-> "raw", s |-> s])
MCRead == (IF GoodRecord THEN ReadRecord ELSE pos' = Len(data) /\ UNCHANGED data) /\ Log([op |-> "strread", s |-> <<>>])
MCLine == (IF HasLine THEN ReadLine ELSE UNCHANGED strvars) /\ Log([op |-> "getline", s |-> <<>>])
MCRewind == pos > 0 /\ Rewind /\ Log([op |-> "rewind", s |-> <<>>])
MCCut == data # <<>> /\ Cut(Len(data) - 1) /\ Log([op |-> "cut", s |-> <<>>])
MCNext == Len(hist) < MaxOps /\ (MCWrite \/ MCRaw \/ MCRead \/ MCLine \/ MCRewind \/ MCCut)
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ Len(hist') = MaxOps) => PrintT("CASE" \o ToJson([h |-> hist']))
\* what was written as a record is read back as that record
WriteThenRead == [][\A s \in Texts : (Put(Record(s)) /\ pos = Len(data)) => (GoodRecord /\ RecordText = s)']_strvars
===============================================================================
