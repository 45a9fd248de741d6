------------------------------ MODULE JsonTrace ------------------------------
EXTENDS JsonTree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<nodes, owner, streams, l>>
Same == UNCHANGED jvars
\* every printed form of the tree denotes the tree
Prints(e, tree) == \A i \in 1..Len(e.pr) : Denotes(e.pr[i], tree)
OneLine(t) == \A i \in 1..(Len(t) - 1) : t[i] # 10
ShowsTree(e, tree) == /\ e.walk = Walk(tree, e.names)
                      /\ tree.k \in {"arr", "obj"} => Prints(e, tree)
                      /\ OneLine(e.pr[1])
NewNodes(e) == [i \in 1..Len(e.ns) |-> Node(e.ns[i].k, e.ns[i].t, [j \in 1..Len(e.ns[i].c) |-> Kid(e.ns[i].c[j].n, Len(nodes) + e.ns[i].c[j].i)])]
\* observed nodes of a bundled array: the array, then its elements
ArrayOf(e) == /\ e.ns[1].k = "arr" /\ Len(e.ns) = 1 + Len(e.vs)
              /\ e.ns[1].c = [j \in 1..Len(e.vs) |-> [n |-> <<>>, i |-> j + 1]]
              /\ \A j \in 1..Len(e.vs) : Bundled(e.ty, e.vs[j], Leaf(e.ns[j + 1].k, e.ns[j + 1].t), e.tab)
KeyFields == <<[n |-> <<120>>, ty |-> "int"], [n |-> <<121>>, ty |-> "int"], [n |-> <<120, 115>>, ty |-> "float"],
               [n |-> <<121, 115>>, ty |-> "float"], [n |-> <<108, 101, 118, 101, 108>>, ty |-> "int"],
               [n |-> <<115, 99, 97, 108, 101>>, ty |-> "float"], [n |-> <<115, 105, 103, 109, 97>>, ty |-> "float"],
               [n |-> <<115, 99, 111, 114, 101>>, ty |-> "float"], [n |-> <<111, 114, 105>>, ty |-> "float"],
               [n |-> <<105, 100>>, ty |-> "size"]>>
KeyOf(e, v, tree) == /\ tree.k = "obj" /\ Members(tree) = Len(KeyFields)
   /\ \A j \in 1..Len(KeyFields) : LET i == Find(tree, KeyFields[j].n) IN
        i # 0 /\ Bundled(KeyFields[j].ty, v[j], tree.c[2 * i], e.tab)
Step(e) ==
  \/ e.op = "case" /\ nodes' = <<>> /\ owner' = <<>> /\ streams' = [i \in 0..(NSTREAMS - 1) |-> 0]
  \* C07: one text, read from memory, a stream or a file
  \/ e.op = "parse" /\ Same /\ LET p == Parse(e.text) IN
       IF e.out = "ok" THEN p.m = "done" /\ ShowsTree(e, Tree(p)) /\ e.heap = 0
       ELSE e.out = "fatal" /\ ~IsDocument(p)
  \* a row of w numbers inside d brackets: too long to write out, so its shape is stated
  \/ e.op = "big" /\ Same /\ e.out = "ok" /\ e.depth = e.d /\ e.count = (IF e.d >= 1 THEN e.w ELSE 0)
  \/ e.op = "nofile" /\ Same /\ e.out = "fatal"
  \* C08: trees built call by call
  \/ e.op = "new" /\ New(e.k, e.t) /\ e.out = "ok" /\ e.gk = e.k /\ e.gt = e.t
  \/ e.op = "add" /\ ArrayAdd(e.p, e.h) /\ e.out = "ok" /\ e.res = e.h
  \/ e.op = "oadd" /\ ObjectAdd(e.p, e.n, e.h) /\ e.out = "ok" /\ e.res = e.h
  \/ e.op = "aget" /\ Same /\ LET r == ArrayGet(e.p, e.pos, e.mask) IN
       IF e.out = "ok" THEN e.res = r /\ (e.force => r # 0) ELSE e.out = "fatal" /\ e.force /\ r = 0
  \/ e.op = "oget" /\ Same /\ LET r == ObjectGet(e.p, e.n, e.mask) IN
       IF e.out = "ok" THEN e.res = r /\ (e.force => r # 0) ELSE e.out = "fatal" /\ e.force /\ r = 0
  \/ e.op = "info" /\ Same /\ e.cnt = Count(e.h) /\ e.gk = nodes[e.h].k /\ e.gt = nodes[e.h].t
       /\ \A i \in 1..Len(e.is) : /\ e.is[i].is = (e.is[i].m = Bit(nodes[e.h].k))
                                  /\ e.is[i].a = HasBit(e.is[i].m, nodes[e.h].k)
  \/ e.op = "show" /\ Same /\ ShowsTree(e, TreeOf(e.h))
  \* C08: typed values
  \/ e.op = "bundle" /\ e.out = "ok" /\ Len(e.ns) = 1 /\ Bundled(e.ty, e.vs[1], Leaf(e.ns[1].k, e.ns[1].t), e.tab) /\ Create(NewNodes(e))
  \/ e.op = "bundlearr" /\ e.out = "ok" /\ ArrayOf(e) /\ Create(NewNodes(e))
  \/ e.op = "unb" /\ Same /\ Readable(e.ty, nodes[e.h].k) /\ e.v = Unbundled(e.ty, nodes[e.h], e.tab)
  \/ e.op = "unbarr" /\ Same /\ nodes[e.h].k = "arr" /\
       LET kids == [i \in 1..Len(nodes[e.h].c) |-> nodes[nodes[e.h].c[i].h]] IN
       IF e.out = "ok" THEN /\ \A i \in 1..Len(kids) : Readable(e.ty, kids[i].k)
                            /\ e.vs = [i \in 1..Len(kids) |-> Unbundled(e.ty, kids[i], e.tab)]
       ELSE e.out = "fatal" /\ \E i \in 1..Len(kids) : ~Readable(e.ty, kids[i].k)
  \* bundled, printed, parsed and unbundled again
  \/ e.op = "rt" /\ Same /\ e.out = "ok" /\ e.back = e.vs /\ e.heap = 0
  \/ e.op = "keys" /\ Same /\ e.out = "ok" /\ e.back = e.vs /\ e.heap = 0
       /\ LET p == Parse(e.text) IN IsDocument(p) /\ Tree(p).k = "arr" /\ Len(Tree(p).c) = Len(e.vs)
            /\ \A i \in 1..Len(e.vs) : KeyOf(e, e.vs[i], Tree(p).c[i])
  \/ e.op = "keymiss" /\ Same /\ e.out = "fatal"
  \* C08: log streams
  \/ e.op = "log" /\ e.out = "ok" /\ LogAdd(e.id, e.key, LogLeaf(e.ty, e.v))
  \/ e.op = "loga" /\ e.out = "ok" /\ LogArray(e.id, e.key, LogLeaf(e.ty, e.v))
  \/ e.op = "logclear" /\ e.out = "ok" /\ LogClear(e.id)
  \/ e.op = "logfree" /\ e.out = "ok" /\ LogFree
  \/ e.op = "logshow" /\ e.out = "ok" /\ LogTouch(e.id) /\ ShowsTree(e, LogTree(e.id))
  \/ e.op \in {"logclear", "logshow", "log"} /\ e.out = "fatal" /\ ~StreamOk(e.id) /\ Same
  \/ e.op = "end" /\ e.heap = 0 /\ Same
TraceInit == JInit /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
