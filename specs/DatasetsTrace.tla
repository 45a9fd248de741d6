----------------------------- MODULE DatasetsTrace -----------------------------
EXTENDS Datasets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kids       \* kids: names below each directory, as bytes
tvars == <<dvars, l, kids>>
Names(p) == IF p \in DOMAIN kids THEN kids[p] ELSE {}
AddKid(p, n) == kids' = (p :> (Names(p) \cup {n})) @@ kids
DropKid(p, n) == kids' = (p :> (Names(p) \ {n})) @@ kids
Before(a, b) == \E i \in 1..(Len(a) + 1) : /\ \A j \in 1..(i - 1) : j <= Len(b) /\ a[j] = b[j]
                                           /\ i <= Len(b) /\ (i = Len(a) + 1 \/ a[i] < b[i])
Sorted(s) == \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1])
Dot == <<46>>  DotDot == <<46, 46>>
ScanOK(p, r) == Sorted(r) = TRUE /\ {r[i] : i \in 1..Len(r)} = Names(p) \cup {Dot, DotDot}
Done(e) == e.out = "ok"
Known128 == {"Biker", "Board", "Hand_ce1", "Jogging2", "Airport_ce", "Basketball_ce3"}
Gray(g, v, tol) == v >= g - tol /\ v <= g + tol
FrameOK(e, p, tol) == IF At(p).k = "img" THEN Done(e) /\ e.w = At(p).w /\ e.h = At(p).h /\ e.uni /\ Gray(At(p).g, e.g, tol) = TRUE ELSE ~Done(e)
Same(e) == UNCHANGED <<dvars, kids>>
Step(e) ==
  \/ e.op = "case" /\ fs' = ("" :> Dir) /\ kitti' = {} /\ seq' = NoSeq /\ kids' = ("" :> {})
  \/ e.op = "mkd" /\ Put(e.p, Dir) /\ AddKid(e.par, e.n)
  \/ e.op = "put" /\ Put(e.p, IF e.k = "num" THEN [k |-> "num", v |-> e.v] ELSE IF e.k = "words" THEN [k |-> "words", v |-> e.v] ELSE [k |-> "img", w |-> e.w, h |-> e.h, g |-> e.g]) /\ AddKid(e.par, e.n)
  \/ e.op = "rm" /\ Remove(e.p) /\ DropKid(e.par, e.n)
  \/ e.op = "isdir" /\ Same(e) /\ e.r = IsDir(e.p)
  \/ e.op = "isfile" /\ Same(e) /\ (IsFile(e.p) => e.r) /\ (At(e.p).k = "none" => ~e.r)
  \/ e.op = "scan" /\ Same(e) /\ (IF IsDir(e.p) THEN Done(e) /\ ScanOK(e.p, e.r) = TRUE ELSE ~Done(e))
  \/ e.op = "ensure" /\ IF EnsureOK(e.p, e.par) THEN Done(e) /\ e.r /\ Ensure(e.p) /\ AddKid(e.par, e.n) ELSE ~Done(e) /\ Same(e)
  \/ e.op = "kopen" /\ Done(e) /\ KOpen /\ {i \in 0..(MaxSeq - 1) : e.r[i + 1]} = kitti' /\ UNCHANGED kids
  \/ e.op = "kseq" /\ UNCHANGED kids
        /\ IF KSeqOK(e.id) THEN Done(e) /\ KSeq(e.id) /\ e.gt = seq'.gt /\ e.len = Len(seq'.times) /\ e.times = seq'.times
                                /\ e.poses = seq'.poses /\ e.calib = seq'.calib /\ e.cams = seq'.cams /\ e.lidar = seq'.lidar
           ELSE ~Done(e) /\ UNCHANGED dvars
  \/ e.op = "kframe" /\ Same(e) /\ seq.kind = "kitti" /\ (IF seq.cams[e.c + 1] THEN FrameOK(e, KFrame(e.c, e.f), 0) ELSE ~Done(e))
  \/ e.op = "vseq" /\ UNCHANGED kids /\ IF VSeqOK(e.name) THEN Done(e) /\ VSeq(e.name) /\ e.len = 6 /\ e.hs = seq'.h ELSE ~Done(e) /\ UNCHANGED dvars
  \/ e.op = "vframe" /\ Same(e) /\ seq.kind = "vgg" /\ FrameOK(e, VFrame(e.f), 0)
  \/ e.op = "tseq" /\ UNCHANGED kids
        /\ IF TSeqOK(e.name, Known128) THEN Done(e) /\ TSeq(e.name) /\ e.s = seq'.start /\ e.t = seq'.end /\ e.len = seq'.len /\ e.attr = seq'.attr /\ e.gts = seq'.gt
           ELSE ~Done(e) /\ UNCHANGED dvars
  \/ e.op = "tframe" /\ Same(e) /\ seq.kind = "temple" /\ FrameOK(e, TFrame(e.f), 4)
TraceInit == DataInit /\ l = 1 /\ kids = ("" :> {})
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
