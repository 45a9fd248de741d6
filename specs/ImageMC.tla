------------------------------- MODULE ImageMC -------------------------------
EXTENDS Image, TLC, Json
CONSTANTS Dims, Types, Dts, Extra, MaxDepth, Emit
DimsQ == {<<2, 1>>, <<1, 2>>}
DimsD == {<<2, 1>>}
DimsT == {<<0, 0>>, <<2, 1>>, <<1, 2>>}
VARIABLE hist
vars == <<img, lent, hist>>
view == <<img, lent>>
MCInit == Init /\ hist = <<>>
Log(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
Need(x, n) == Max(x.cap, n)
Val(i, dt) == IF dt = Uc THEN (i * 37) % 256 ELSE ((i * 37) % 64) * 1024
Cells(n, dt) == [i \in 1..n |-> Val(i, dt)]
Sz(w, h, st, t, d) == EffStride(w, st, t) * h * Bpc(d)

MCAlloc == \E s \in Slots : Alloc(s) /\ Log([op |-> "alloc", s |-> s])
MCNew == \E s \in Slots, g \in Dims, t \in Types, d \in Dts :
    New(s, g[1], g[2], t, d, Sz(g[1], g[2], 0, t, d)) /\ Log([op |-> "new", s |-> s, w |-> g[1], h |-> g[2], t |-> t, d |-> d])
MCResize == \E s \in Slots, g \in Dims, t \in Types, d \in Dts, k \in Extra :
    LET st == IF k = 0 THEN 0 - 1 ELSE g[1] * NCh(t) + k - 1
    IN Resize(s, g[1], g[2], st, t, d, Need(img[s], IF SameGeom(img[s], g[1], g[2], st, t, d) THEN 0 ELSE Sz(g[1], g[2], st, t, d)))
       /\ Log([op |-> "resize", s |-> s, w |-> g[1], h |-> g[2], st |-> st, t |-> t, d |-> d])
MCLike == \E s, u \in Slots : s # u /\ img[u].ex /\ img[s].ex
    /\ Resize(s, img[u].w, img[u].h, 0 - 1, img[u].type, img[u].dt,
              Need(img[s], Sz(img[u].w, img[u].h, 0, img[u].type, img[u].dt)))
    /\ Log([op |-> "like", s |-> s, u |-> u])
MCRelease == \E s \in Slots : Release(s) /\ Log([op |-> "release", s |-> s])
MCFill == \E s \in Slots : img[s].ex /\ Len(img[s].px) > 0 /\ Fill(s, Cells(Len(img[s].px), img[s].dt))
    /\ Log([op |-> "fill", s |-> s, px |-> Cells(Len(img[s].px), img[s].dt)])
MCStore == \E s \in Slots : img[s].ex /\ Len(img[s].px) > 0
    /\ LET x == img[s] IN Store(s, x.w - 1, x.h - 1, NCh(x.type) - 1, 0)
                          /\ Log([op |-> "store", s |-> s, x |-> x.w - 1, y |-> x.h - 1, c |-> NCh(x.type) - 1, v |-> 0])
MCZero == \E s \in Slots : SetZero(s) /\ Log([op |-> "zero", s |-> s])
MCCopy == \E s, u \in Slots : img[u].ex /\ Copy(s, u, Need(img[s], Bytes(img[u]))) /\ Log([op |-> "copy", s |-> s, u |-> u])
MCCopyNew == \E s, u \in Slots : CopyNew(s, u, Bytes(img[u])) /\ Log([op |-> "copynew", s |-> s, u |-> u])
MCLend == \E s \in Slots, b \in Bufs, g \in Dims, t \in Types, d \in Dts, k \in Extra :
    LET st == g[1] * NCh(t) + k IN
    g[1] * g[2] > 0 /\ WrapLent(s, b, g[1], g[2], st, t, d, Cells(st * g[2], d))
    /\ Log([op |-> "lend", s |-> s, w |-> g[1], h |-> g[2], st |-> st, t |-> t, d |-> d, cells |-> Cells(st * g[2], d), b |-> b])
MCGive == \E s \in Slots, g \in Dims, t \in Types, d \in Dts :
    LET st == g[1] * NCh(t) + 1 IN
    g[1] * g[2] > 0 /\ WrapGiven(s, g[1], g[2], st, t, d, Cells(st * g[2], d))
    /\ Log([op |-> "give", s |-> s, w |-> g[1], h |-> g[2], st |-> st, t |-> t, d |-> d, cells |-> Cells(st * g[2], d)])
MCSwap == \E s, u \in Slots : s # u /\ Swap(s, u) /\ Log([op |-> "swap", s |-> s, u |-> u])
MCFree == \E s \in Slots : Free(s) /\ Log([op |-> "free", s |-> s])

(* conversions, with the exactly truncated / rounded result *)
Rgb(px, i) == <<px[4 * i - 3], px[4 * i - 2], px[4 * i - 1]>>
ToGray(px) == [i \in 1..(Len(px) \div 4) |-> LET q == Rgb(px, i) IN
                 IF UNK \in {q[1], q[2], q[3]} THEN UNK ELSE ((30 * q[1]) + (59 * q[2]) + (11 * q[3])) \div 100]
ToRgba(px, dt) == [i \in 1..(4 * Len(px)) |-> IF i % 4 = 0 THEN (IF dt = Uc THEN 255 ELSE F) ELSE px[(i - 1) \div 4 + 1]]
MCCType == \E s \in Slots, t \in Types : img[s].ex
    /\ LET x == img[s]
           res == IF t = x.type THEN x.px ELSE IF t = Rgba THEN ToRgba(x.px, x.dt) ELSE ToGray(x.px)
       IN /\ ConvertType(s, t, res, IF x.type = t \/ x.kind = "none" THEN x.cap ELSE Need(x, Sz(x.w, x.h, 0, t, x.dt)))
          /\ Log([op |-> "ctype", s |-> s, t |-> t])
MCCDtype == \E s, u \in Slots : s # u /\ img[s].ex /\ img[u].ex
    /\ LET x == img[u]
           res == IF x.dt = img[s].dt THEN x.px
                  ELSE [i \in 1..Len(x.px) |-> IF x.px[i] = UNK THEN UNK
                          ELSE IF x.dt = Uc THEN (x.px[i] * F) \div 255 ELSE Clamp((x.px[i] * 255) \div F, 0, 255)]
       IN /\ ConvertDtype(s, u, res, Need(img[s], IF x.dt = img[s].dt THEN Bytes(x) ELSE Sz(x.w, x.h, 0, Gray, img[s].dt)))
          /\ Log([op |-> "cdtype", s |-> s, u |-> u])

MCNext == MCAlloc \/ MCNew \/ MCResize \/ MCLike \/ MCRelease \/ MCFill \/ MCStore \/ MCZero \/ MCCopy \/ MCCopyNew
          \/ MCLend \/ MCGive \/ MCSwap \/ MCFree \/ MCCType \/ MCCDtype
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))

(* an image changes only through a call that names it *)
OnlyNamed == [][\A s \in Slots : (img[s].ex /\ img'[s].ex /\ img'[s].px # img[s].px) =>
                  LET r == hist'[Len(hist')] IN s = r.s \/ (r.op = "swap" /\ s = r.u)]_img
===============================================================================
