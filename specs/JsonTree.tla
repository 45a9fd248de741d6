------------------------------ MODULE JsonTree ------------------------------
(* JSON trees built call by call, typed values bundled into them, and the log   *)
(* streams.  A node is [k, t, c]; c lists the children as [n, h] = member name   *)
(* (<<>> in arrays) and node number.                                            *)
EXTENDS JsonText, TLC
VARIABLES nodes, owner, streams
jvars == <<nodes, owner, streams>>
NSTREAMS == 32
JInit == nodes = <<>> /\ owner = <<>> /\ streams = [i \in 0..(NSTREAMS - 1) |-> 0]

Bit(k) == CASE k = "obj" -> 1 [] k = "arr" -> 2 [] k = "str" -> 4 [] k = "int" -> 8
            [] k = "fp" -> 16 [] k = "true" -> 32 [] k = "false" -> 64 [] k = "null" -> 128
HasBit(mask, k) == (mask \div Bit(k)) % 2 = 1
Known(h) == h \in 1..Len(nodes)
Kid(n, h) == [n |-> n, h |-> h]

\* create nodes numbered from Len(nodes)+1; only the first is a root
Create(ns) == /\ nodes' = nodes \o ns
              /\ owner' = owner \o [i \in 1..Len(ns) |-> IF i = 1 THEN 0 ELSE Len(owner) + 1]
              /\ UNCHANGED streams
New(k, t) == Create(<<Node(k, t, <<>>)>>)
RECURSIVE RootOf(_)
RootOf(h) == IF owner[h] <= 0 THEN h ELSE RootOf(owner[h])
Link(p, name, h) == /\ Known(p) /\ Known(h) /\ owner[h] = 0 /\ RootOf(p) # h
                    /\ nodes' = [nodes EXCEPT ![p].c = Append(@, Kid(name, h))]
                    /\ owner' = [owner EXCEPT ![h] = p]
                    /\ UNCHANGED streams
ArrayAdd(p, h) == Known(p) /\ nodes[p].k = "arr" /\ Link(p, <<>>, h)
ObjectAdd(p, name, h) == Known(p) /\ nodes[p].k = "obj" /\ Link(p, name, h)

\* lookups: the node number found, 0 when there is none
Typed(h, mask) == IF h = 0 THEN 0 ELSE IF HasBit(mask, nodes[h].k) THEN h ELSE 0
ArrayGet(p, pos, mask) == IF nodes[p].k # "arr" \/ pos >= Len(nodes[p].c) THEN 0 ELSE Typed(nodes[p].c[pos + 1].h, mask)
FirstNamed(p, name) == SelectInSeq(nodes[p].c, LAMBDA x : x.n = name)
ObjectGet(p, name, mask) == IF nodes[p].k # "obj" THEN 0
                            ELSE IF FirstNamed(p, name) = 0 THEN 0 ELSE Typed(nodes[p].c[FirstNamed(p, name)].h, mask)
Count(p) == IF nodes[p].k = "obj" THEN 2 * Len(nodes[p].c) ELSE Len(nodes[p].c)

\* the tree a node is the root of
RECURSIVE TreeOf(_)
TreeOf(h) == LET x == nodes[h] IN
   Node(x.k, x.t, IF x.k = "obj" THEN FlattenSeq([i \in 1..Len(x.c) |-> <<Leaf("str", x.c[i].n), TreeOf(x.c[i].h)>>])
                  ELSE [i \in 1..Len(x.c) |-> TreeOf(x.c[i].h)])

\* ---- typed values
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
MINTEXT == <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
IntText(v) == IF v >= 0 THEN Dec(v) ELSE IF v < -2147483647 THEN MINTEXT ELSE <<45>> \o Dec(-v)
\* 64-bit words as four 16-bit pieces, most significant first; a decimal text denotes a word
TimesTen(w, d) == LET a4 == (w[4] * 10) + d a3 == (w[3] * 10) + (a4 \div 65536)
                      a2 == (w[2] * 10) + (a3 \div 65536) a1 == (w[1] * 10) + (a2 \div 65536)
                  IN <<a1 % 65536, a2 % 65536, a3 % 65536, a4 % 65536>>
WordOf(t) == FoldLeft(LAMBDA w, c : TimesTen(w, c - 48), <<0, 0, 0, 0>>, t)
IsCanonical(t) == t # <<>> /\ (\A i \in 1..Len(t) : t[i] \in Digit) /\ (t[1] = 48 => Len(t) = 1)
\* reals: the value of a text comes from a table computed outside the code under test
RealOf(tab, t) == IF \E i \in 1..Len(tab) : tab[i].t = t THEN tab[CHOOSE i \in 1..Len(tab) : tab[i].t = t].v ELSE <<>>
IsNumberTok(t, k) == LET x == Tokens(t) IN Len(x) = 1 /\ x[1].k = k /\ x[1].t = t
\* the node text a bundled value may have
Bundled(ty, v, n, tab) ==
  CASE ty = "bool" -> n = Leaf(IF v = <<0>> THEN "false" ELSE "true", <<>>)
    [] ty = "char" -> n = Leaf("str", IF v = <<0>> THEN <<>> ELSE v)
    [] ty = "string" -> n = Leaf("str", v)
    [] ty \in {"int", "uchar"} -> n = Leaf("int", IntText(v[1]))
    [] ty = "size" -> n.k = "int" /\ n.c = <<>> /\ IsCanonical(n.t) /\ WordOf(n.t) = v
    [] ty \in {"double", "float"} -> n.k = "fp" /\ n.c = <<>> /\ IsNumberTok(n.t, "fp") /\ RealOf(tab, n.t) = v
\* reading a node as a type (defined where the node has a kind that type can be read from)
Readable(ty, k) == CASE ty = "bool" -> k \in {"true", "false"}
                     [] ty \in {"char", "string"} -> k = "str"
                     [] ty \in {"int", "uchar", "size"} -> k = "int"
                     [] ty \in {"double", "float"} -> k \in {"int", "fp"}
IntOf(t) == IF t = MINTEXT THEN -2147483647 - 1
            ELSE IF t[1] = 45 THEN -FoldLeft(LAMBDA a, c : (a * 10) + (c - 48), 0, Tail(t))
            ELSE FoldLeft(LAMBDA a, c : (a * 10) + (c - 48), 0, t)
Clamp(i) == IF i < 0 THEN 0 ELSE IF i > 255 THEN 255 ELSE i
Unbundled(ty, n, tab) ==
  CASE ty = "bool" -> IF n.k = "true" THEN <<1>> ELSE <<0>>
    [] ty = "char" -> IF n.t = <<>> THEN <<0>> ELSE <<n.t[1]>>
    [] ty = "string" -> n.t
    [] ty = "int" -> <<IntOf(n.t)>>
    [] ty = "uchar" -> <<Clamp(IntOf(n.t))>>
    [] ty = "size" -> WordOf(n.t)
    [] ty \in {"double", "float"} -> RealOf(tab, n.t)

\* ---- log streams: numbered objects made on first use
LogLeaf(ty, v) == IF ty = "int" THEN Leaf("int", IntText(v[1])) ELSE Leaf("str", v)
StreamOk(id) == id \in 0..(NSTREAMS - 1)
Stream(id) == streams[id]
\* add value node h under a key of a stream, or to the array kept under the key
LogAdd(id, key, v) ==   \* v: the leaf added as a member
  /\ StreamOk(id)
  /\ IF streams[id] = 0
     THEN /\ nodes' = nodes \o <<Node("obj", <<>>, <<Kid(key, Len(nodes) + 2)>>), v>>
          /\ owner' = owner \o <<-1, Len(owner) + 1>>
          /\ streams' = [streams EXCEPT ![id] = Len(nodes) + 1]
     ELSE /\ nodes' = Append([nodes EXCEPT ![streams[id]].c = Append(@, Kid(key, Len(nodes) + 1))], v)
          /\ owner' = Append(owner, streams[id])
          /\ UNCHANGED streams
LogArray(id, key, v) ==
  /\ StreamOk(id)
  /\ LET s == IF streams[id] = 0 THEN Len(nodes) + 1 ELSE streams[id]
         ns == IF streams[id] = 0 THEN Append(nodes, Node("obj", <<>>, <<>>)) ELSE nodes
         os == IF streams[id] = 0 THEN Append(owner, -1) ELSE owner
         i == SelectInSeq(ns[s].c, LAMBDA x : x.n = key)
         a == IF i = 0 THEN 0 ELSE IF ns[ns[s].c[i].h].k = "arr" THEN ns[s].c[i].h ELSE 0
     IN /\ streams' = [streams EXCEPT ![id] = s]
        /\ IF a # 0
           THEN /\ nodes' = Append([ns EXCEPT ![a].c = Append(@, Kid(<<>>, Len(ns) + 1))], v)
                /\ owner' = Append(os, a)
           ELSE /\ nodes' = [ns EXCEPT ![s].c = Append(@, Kid(key, Len(ns) + 1))]
                            \o <<Node("arr", <<>>, <<Kid(<<>>, Len(ns) + 2)>>), v>>
                /\ owner' = os \o <<s, Len(ns) + 1>>
LogClear(id) == StreamOk(id) /\ streams' = [streams EXCEPT ![id] = 0] /\ UNCHANGED <<nodes, owner>>
LogFree == streams' = [i \in 0..(NSTREAMS - 1) |-> 0] /\ UNCHANGED <<nodes, owner>>
LogTree(id) == IF streams[id] = 0 THEN Node("obj", <<>>, <<>>) ELSE TreeOf(streams[id])
LogTouch(id) == StreamOk(id) /\ IF streams[id] # 0 THEN UNCHANGED jvars
   ELSE /\ nodes' = Append(nodes, Node("obj", <<>>, <<>>)) /\ owner' = Append(owner, -1)
        /\ streams' = [streams EXCEPT ![id] = Len(nodes) + 1]
=============================================================================
