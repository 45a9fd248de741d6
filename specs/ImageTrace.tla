----------------------------- MODULE ImageTrace ------------------------------
(* Explains a recording of the real image library with Image's actions.        *)
EXTENDS Image, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<img, lent, l>>

Match(spec, seen) == Len(spec) = Len(seen) /\ \A i \in 1..Len(spec) : spec[i] = UNK \/ spec[i] = seen[i]
P(e, s) == LET k == CHOOSE i \in 1..Len(e.hs) : e.hs[i].s = s IN e.hs[k]
Has(e, s) == \E i \in 1..Len(e.hs) : e.hs[i].s = s
Cap(e, s) == P(e, s).cap
Px(e, s) == P(e, s).px

ShowsImage(x, p) ==
    /\ x.w = p.w /\ x.h = p.h /\ x.type = p.type /\ x.dt = p.dt /\ x.stride = p.stride
    /\ p.nch = NCh(x.type) /\ x.cap = p.cap /\ p.size = Bytes(x)
    /\ (x.kind = "heap") = p.own
    /\ (x.kind = "none") = (p.ref = 0)
    /\ (x.kind = "lent") = (p.ref > 0)
    /\ (x.kind = "lent") => x.buf = p.ref
    /\ Match(x.px, p.px)
(* every existing image, and every buffer the caller still holds, is as the specification says *)
Shows(e) == /\ \A s \in Slots : img'[s].ex = Has(e, s)
            /\ \A i \in 1..Len(e.hs) : ShowsImage(img'[e.hs[i].s], e.hs[i])
            /\ \A i \in 1..Len(e.lent) : Match(lent'[e.lent[i].b].c, e.lent[i].data)
            
Step(e) ==
  \/ /\ e.op = "case" /\ img' = [s \in Slots |-> NoImage] /\ lent' = [b \in Bufs |-> NoBuf]
  \/ /\ e.op = "alloc"   /\ Alloc(e.s) /\ Shows(e)
  \/ /\ e.op = "new"     /\ New(e.s, e.w, e.h, e.t, e.d, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "newlike" /\ New(e.s, img[e.u].w, img[e.u].h, img[e.u].type, img[e.u].dt, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "resize"  /\ Resize(e.s, e.w, e.h, e.st, e.t, e.d, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "like"    /\ Resize(e.s, img[e.u].w, img[e.u].h, e.st, img[e.u].type, img[e.u].dt, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "release" /\ Release(e.s) /\ Shows(e)
  \/ /\ e.op = "free"    /\ Free(e.s) /\ Shows(e)
  \/ /\ e.op = "fill"    /\ Fill(e.s, e.px) /\ Shows(e)
  \/ /\ e.op = "store"   /\ Store(e.s, e.x, e.y, e.c, e.v) /\ Shows(e)
  \/ /\ e.op = "zero"    /\ SetZero(e.s) /\ Shows(e)
  \/ /\ e.op = "copy"    /\ Copy(e.s, e.u, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "copynew" /\ CopyNew(e.s, e.u, Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "lend"    /\ WrapLent(e.s, e.b, e.w, e.h, e.st, e.t, e.d, e.cells) /\ Shows(e)
  \/ /\ e.op = "give"    /\ WrapGiven(e.s, e.w, e.h, e.st, e.t, e.d, e.cells) /\ Shows(e)
  \/ /\ e.op = "swap"    /\ Swap(e.s, e.u) /\ Shows(e)
  \/ /\ e.op = "ctype"   /\ ConvertType(e.s, e.t, Px(e, e.s), Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "cdtype"  /\ ConvertDtype(e.s, e.u, Px(e, e.s), Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "derive"  /\ Derive(e.s, e.u, e.f, e.a, Px(e, e.s), Cap(e, e.s)) /\ Shows(e)
  \/ /\ e.op = "sub"     /\ Subtract(e.s, e.u, e.v, Px(e, e.s), Cap(e, e.s)) /\ Shows(e)
  \* the gray value of a color, the color value of a gray
  \/ /\ e.op = "gray1" /\ UNCHANGED ivars
     /\ TruncOK(e.v, (30 * e.r) + (59 * e.g) + (11 * e.b), 100)
  \* after the caller freed every image: nothing of the library's memory is left
  \/ /\ e.op = "end" /\ \A s \in Slots : ~img[s].ex
     /\ e.heap = 0 /\ UNCHANGED ivars
     /\ \A i \in 1..Len(e.lent) : Match(lent[e.lent[i].b].c, e.lent[i].data)

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
