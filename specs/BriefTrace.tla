------------------------------- MODULE BriefTrace -------------------------------
EXTENDS Brief, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ext, known, file, map, l>>
\* every extractor there is shows exactly its state
ShowsExt(e) ==
    /\ {e.xs[i].x : i \in 1..Len(e.xs)} = {x \in Exts : ext'[x].n > 0}
    /\ \A i \in 1..Len(e.xs) :
         LET s == ext'[e.xs[i].x]
         IN s.n = e.xs[i].n /\ s.r = e.xs[i].r /\ s.off = e.xs[i].off /\ s.lo = e.xs[i].lo /\ e.xs[i].lim = LimitsOf(s.off)
Off(e) == LET i == CHOOSE i \in 1..Len(e.xs) : e.xs[i].x = e.x IN e.xs[i].off
Rot(e) == [c |-> e.rc, s |-> e.rs, d |-> e.rd]
ComputeOK(e) ==
    LET s == ext[e.x]
    IN /\ AcceptOK(s, e.lv, e.v, e.px, e.py, None, e.fz, e.ok)
       /\ e.ok => DescOK(s, e.lv[e.v], e.lv[e.v + s.lo], e.px, e.py, None, e.fz, e.bits)
ThetaOK(e) ==
    LET s == ext[e.x]
        fz == e.fz \/ e.rd # 1
    IN /\ AcceptOK(s, e.lv, e.v, e.px, e.py, Rot(e), fz, e.ok)
       /\ e.ok => DescOK(s, e.lv[e.v], e.lv[e.v + s.lo], e.px, e.py, Rot(e), fz, e.bits)
\* the class: accepted keypoints in order, described with the table of its seed
RECURSIVE MatchKeys(_, _, _, _, _, _)
MatchKeys(s, lv, fz, keys, items, i) ==
    IF i > Len(keys) THEN items = <<>>
    ELSE LET k == keys[i]
             hit == items # <<>> /\ items[1][1] = k.id
         IN /\ AcceptOK(s, lv, k.v, k.x, k.y, None, fz, hit)
            /\ hit => DescOK(s, lv[k.v], lv[k.v + s.lo], k.x, k.y, None, fz, items[1][2])
            /\ MatchKeys(s, lv, fz, keys, IF hit THEN Tail(items) ELSE items, i + 1)
Step(e) ==
  \/ e.op = "case" /\ ext' = [x \in Exts |-> NoExt] /\ known' = {} /\ file' = [recs |-> <<>>, pos |-> 0] /\ map' = [n |-> 32, items |-> <<>>]
  \/ e.op = "new" /\ Make(e.x, e.n, e.r, e.seed, Off(e)) /\ ShowsExt(e)
  \/ e.op = "resize" /\ Resize(e.x, e.n, e.r, Off(e)) /\ ShowsExt(e)
  \/ e.op = "seed" /\ Reseed(e.x, e.seed, Off(e)) /\ ShowsExt(e)
  \/ e.op = "table" /\ SetTable(e.x, e.off) /\ ShowsExt(e)
  \/ e.op = "level" /\ SetLevel(e.x, e.lo) /\ ShowsExt(e)
  \/ e.op = "free" /\ Free(e.x) /\ ShowsExt(e)
  \/ e.op = "save" /\ e.ok /\ Save(e.x) /\ ShowsExt(e)
  \/ e.op = "cut" /\ Cut /\ ShowsExt(e)
  \/ e.op = "load" /\ Load(e.x, e.ok) /\ ShowsExt(e)
  \/ e.op = "compute" /\ ComputeOK(e) = TRUE /\ Look /\ ShowsExt(e)
  \/ e.op = "theta" /\ ThetaOK(e) = TRUE /\ Look /\ ShowsExt(e)
  \/ e.op = "dist" /\ e.d = Distance(e.a, e.b) /\ Look
  \/ e.op = "mapnew" /\ MapNew(e.n)
  \/ e.op = "mapadd" /\ Len(e.bits) = 8 * map.n /\ MapAdd(<<<<e.id, e.bits>>>>) /\ e.size = Len(map'.items)
  \/ e.op = "mapclear" /\ MapClear /\ e.size = 0
  \/ e.op = "nn" /\ NearestOK(e.bits, e.id, e.cost) = TRUE /\ Look
  \/ e.op = "byid" /\ ByIdOK(e.id, e.found, e.bits) = TRUE /\ Look
  \/ e.op = "mapall" /\ e.items = map.items /\ Look
  \/ e.op = "vg" /\ MapAdd(e.items)
       /\ (TableOK(e.n, e.r, e.off) /\ MatchKeys([n |-> e.n, r |-> e.r, off |-> e.off, lo |-> 2], e.lv, e.fz, e.keys, e.items, 1)) = TRUE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
