-------------------------------- MODULE Graph --------------------------------
(* Undirected weighted graphs without self loops.  Weights are opaque values.  *)
(* The same insertion history is applied to both representations.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT ABSENT
VARIABLES nv,     \* number of vertices; vertices are 0 .. nv-1
          w       \* unordered pair of vertices -> weight
gvars == <<nv, w>>

Vertex(n) == 0..(n - 1)
Pairs(n) == {p \in SUBSET Vertex(n) : Cardinality(p) = 2}
Init == nv = 0 /\ w = [p \in {} |-> ABSENT]
New(n) == nv' = n /\ w' = [p \in {} |-> ABSENT]
\* the last weight wins, in both directions; a self edge is ignored
Insert(u, v, x) == /\ u \in Vertex(nv) /\ v \in Vertex(nv)
                   /\ w' = IF u = v THEN w
                           ELSE [p \in DOMAIN w \cup {{u, v}} |-> IF p = {u, v} THEN x ELSE w[p]]
                   /\ UNCHANGED nv

EdgeCount == Cardinality(DOMAIN w)
Weight(u, v) == IF {u, v} \in DOMAIN w THEN w[{u, v}] ELSE ABSENT
Neighbours(u) == {v \in Vertex(nv) : v # u /\ {u, v} \in DOMAIN w}

\* the two representations of the same graph
Matrix == [i \in 1..(nv * nv) |-> Weight((i - 1) \div nv, (i - 1) % nv)]
Lists == [u \in Vertex(nv) |-> {<<v, Weight(u, v)>> : v \in Neighbours(u)}]

PairsAreEdges == \A p \in DOMAIN w : p \in Pairs(nv)
NoSelfEdge == \A u \in Vertex(nv) : Weight(u, u) = ABSENT
Symmetric == \A u, v \in Vertex(nv) : Matrix[u * nv + v + 1] = Matrix[v * nv + u + 1]
CountsAgree == /\ 2 * EdgeCount = Cardinality({i \in 1..(nv * nv) : Matrix[i] # ABSENT})
               /\ EdgeCount <= (nv * (nv - 1)) \div 2
ListsAgree == \A u, v \in Vertex(nv) : (\E x \in Lists[u] : x[1] = v) <=> Matrix[u * nv + v + 1] # ABSENT
GraphInv == PairsAreEdges /\ NoSelfEdge /\ Symmetric /\ CountsAgree /\ ListsAgree
===============================================================================
