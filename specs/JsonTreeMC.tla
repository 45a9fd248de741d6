----------------------------- MODULE JsonTreeMC -----------------------------
EXTENDS JsonTree, Json
CONSTANTS MaxNodes, MaxOps, Emit, Names, Texts, Kinds
VARIABLE hist
vars == <<nodes, owner, streams, hist>>
NamesDef == {<<>>, <<97>>}
Texts1 == {<<34>>}
Texts2 == {<<>>, <<92, 110>>}
Did(r) == hist' = Append(hist, r)
TextsOf(k) == CASE k = "str" -> Texts [] k = "int" -> {<<49>>, <<45, 48>>} [] k = "fp" -> {<<49, 46, 53>>} [] OTHER -> {<<>>}
DoNew == Len(nodes) < MaxNodes /\ \E k \in Kinds : \E t \in TextsOf(k) : New(k, t) /\ Did([op |-> "new", k |-> k, t |-> t])
DoAdd == \E p \in 1..Len(nodes), h \in 1..Len(nodes) : ArrayAdd(p, h) /\ Did([op |-> "add", p |-> p, h |-> h])
DoOAdd == \E p \in 1..Len(nodes), h \in 1..Len(nodes), n \in Names : ObjectAdd(p, n, h) /\ Did([op |-> "oadd", p |-> p, h |-> h, n |-> n])
Next == DoNew \/ DoAdd \/ DoOAdd
MCSpec == JInit /\ hist = <<>> /\ [][Next]_vars
View == jvars
Bound == Len(hist) < MaxOps
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
\* every node belongs to at most one parent, and the parent lists it exactly once
OwnedOnce == \A h \in 1..Len(nodes) :
   Cardinality({<<p, i>> \in (1..Len(nodes)) \X (1..MaxOps) : IF i <= Len(nodes[p].c) THEN nodes[p].c[i].h = h ELSE FALSE})
     = (IF owner[h] = 0 THEN 0 ELSE 1)
\* every composite tree has a text and that text denotes it
HasText == \A h \in 1..Len(nodes) : nodes[h].k \in {"arr", "obj"} => Denotes(Text(TreeOf(h)), TreeOf(h))
\* looking up by name or position agrees with the tree
LookupAgrees == \A h \in 1..Len(nodes) :
   /\ \A i \in 0..3 : LET r == ArrayGet(h, i, 255) IN
        IF nodes[h].k = "arr" /\ i < Len(nodes[h].c) THEN r # 0 /\ TreeOf(r) = TreeOf(h).c[i + 1] ELSE r = 0
   /\ \A n \in Names : LET r == ObjectGet(h, n, 255) t == TreeOf(h) IN
        IF nodes[h].k = "obj" /\ Find(t, n) # 0 THEN r # 0 /\ TreeOf(r) = t.c[2 * Find(t, n)] ELSE r = 0
\* printing then walking shows the same as walking
WalkStable == \A h \in 1..Len(nodes) : nodes[h].k \in {"arr", "obj"} =>
   Walk(Tree(Parse(Text(TreeOf(h)))), SetToSeq(Names)) = Walk(TreeOf(h), SetToSeq(Names))
\* number texts
Words == {<<0, 0, 0, 0>>, <<0, 0, 0, 9>>, <<0, 0, 152, 38528>>, <<65535, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>}
ASSUME /\ WordOf(<<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>) = <<65535, 65535, 65535, 65535>>
       /\ \A i \in {-2147483647 - 1, -1, 0, 1, 10, 99, 2147483647} : IntOf(IntText(i)) = i
=============================================================================
