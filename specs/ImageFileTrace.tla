--------------------------- MODULE ImageFileTrace ----------------------------
(* Explains a recording of the real loaders and savers with ImageFile's actions. *)
EXTENDS ImageFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<files, img, l>>
R(e) == [w |-> e.w, h |-> e.h, type |-> e.type, px |-> e.px]
Outcome(e, good) == e.out = IF good THEN "ok" ELSE IF e.x THEN "fatal" ELSE "fail"
Step(e) ==
  \/ e.op = "case" /\ files' = [f \in Names |-> NoFile] /\ img' = NoImg
  \/ e.op = "store" /\ Store(e.w, e.h, e.type, e.px)
  \/ e.op = "save" /\ Outcome(e, TRUE) /\ Save(e.f, e.name, e.how, e.b)
       /\ R(e) = [w |-> img.w, h |-> img.h, type |-> img.type, px |-> img.px]     \* the image is untouched
       /\ (SaveFmt(e.name, e.how) # "pnm" => FmtOfHead(e.b) = SaveFmt(e.name, e.how))
  \/ e.op = "put" /\ Put(e.f, e.b)
  \/ e.op = "putpng" /\ PutPng(e.f, e.w, e.h, e.ch, e.px)
  \/ e.op = "cut" /\ Cut(e.f, e.n, e.size)
  \/ e.op = "flip" /\ Flip(e.f)
  \/ e.op = "remove" /\ Remove(e.f)
  \/ e.op = "fmtname" /\ e.fmt = FmtOfName(e.name) /\ UNCHANGED fvars
  \/ e.op = "fmthead" /\ e.fmt = FmtOfHead(e.head) /\ UNCHANGED fvars
  \/ e.op = "load" /\ e.out = "ok" /\ LoadGood(e.f, e.mode, e.how, R(e))
  \/ e.op = "load" /\ e.out # "ok" /\ Outcome(e, FALSE) /\ LoadBad(e.f, e.how)
  \/ e.op = "full" /\ Outcome(e, FALSE) /\ SaveFull
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================
