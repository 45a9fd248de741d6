-------------------------------- MODULE Image --------------------------------
(* Raster images as their users see them: a rectangle of pixels, each of one  *)
(* (gray) or four (color) channels that are bytes or floating-point numbers,  *)
(* kept in rows that lie `stride' channels apart, in memory that the image    *)
(* owns or that the caller lent to it.  Byte channels are 0..255; float       *)
(* channels are written in units of 1/F.  UNK marks what nobody has stored.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, ImageOps

CONSTANTS Slots, Bufs
VARIABLES img,        \* Slot -> image record
          lent        \* Buf -> caller's buffer: [dt, c] = channel type, cells
ivars == <<img, lent>>

Gray == 0  Rgba == 1           \* types
Uc == 0    F32 == 1            \* channel types
Bpc(dt) == IF dt = Uc THEN 1 ELSE 4

NoImage == [ex |-> FALSE, w |-> 0, h |-> 0, type |-> Gray, dt |-> Uc, stride |-> 0,
            kind |-> "none", buf |-> 0, cap |-> 0, px |-> <<>>]
EmptyImage == [NoImage EXCEPT !.ex = TRUE]
NoBuf == [dt |-> Uc, c |-> <<>>]

Count(w, h, t) == w * h * NCh(t)
Unknown(n) == [i \in 1..n |-> UNK]
Bytes(x) == x.stride * x.h * Bpc(x.dt)

(* x refers to at least n bytes afterwards; c = capacity the implementation    *)
(* picked.  A lent buffer that is too small is left behind.                    *)
CapOK(x, n, c) == IF n > x.cap THEN c >= n ELSE c = x.cap
Fit(x, n, c) == IF n > x.cap THEN [x EXCEPT !.kind = "heap", !.buf = 0, !.cap = c] ELSE x

EffStride(w, s, t) == Max(s, w * NCh(t))
SameGeom(x, w, h, s, t, d) == x.w = w /\ x.h = h /\ x.type = t /\ x.dt = d /\ x.stride = s

(* x with a new geometry; its pixels are kept only if nothing about it changes *)
Resized(x, w, h, s, t, d, c) ==
    IF SameGeom(x, w, h, s, t, d) THEN x
    ELSE LET st == EffStride(w, s, t)
             y  == Fit(x, st * h * Bpc(d), c)
         IN [y EXCEPT !.w = w, !.h = h, !.type = t, !.dt = d, !.stride = st,
                      !.px = IF SameGeom(x, w, h, st, t, d) THEN x.px ELSE Unknown(Count(w, h, t))]
ResizeCapOK(x, w, h, s, t, d, c) ==
    IF SameGeom(x, w, h, s, t, d) THEN c = x.cap
    ELSE CapOK(x, EffStride(w, s, t) * h * Bpc(d), c)

(* the caller's buffer after image x (which may live in it) shows x.px;         *)
(* whole: also the cells between the rows may have been overwritten            *)
Visible(x, i) == LET r == (i - 1) \div x.stride
                     k == (i - 1) % x.stride
                 IN r < x.h /\ k < x.w * NCh(x.type)
PxAt(x, i) == x.px[((i - 1) \div x.stride) * x.w * NCh(x.type) + ((i - 1) % x.stride) + 1]
Through(b, x, whole) ==
    IF x.kind # "lent" THEN lent
    ELSE [lent EXCEPT ![x.buf] =
            IF @.dt # x.dt
            THEN [@ EXCEPT !.c = Unknown(Len(@))]
            ELSE [@ EXCEPT !.c = [i \in 1..Len(@) |->
                    IF x.stride = 0 \/ x.h = 0 THEN @[i]
                    ELSE IF Visible(x, i) THEN PxAt(x, i)
                    ELSE IF whole /\ i <= x.stride * x.h THEN UNK ELSE @[i]]]]

Become(s, x, whole) == /\ img' = [img EXCEPT ![s] = x]
                       /\ lent' = Through(lent, x, whole)

Init == /\ img = [s \in Slots |-> NoImage]
        /\ lent = [b \in Bufs |-> NoBuf]

Alloc(s) == ~img[s].ex /\ img' = [img EXCEPT ![s] = EmptyImage] /\ UNCHANGED lent

New(s, w, h, t, d, c) ==
    /\ ~img[s].ex /\ ResizeCapOK(EmptyImage, w, h, 0 - 1, t, d, c)
    /\ img' = [img EXCEPT ![s] = Resized(EmptyImage, w, h, 0 - 1, t, d, c)] /\ UNCHANGED lent

Resize(s, w, h, st, t, d, c) ==
    /\ img[s].ex /\ ResizeCapOK(img[s], w, h, st, t, d, c)
    /\ LET y == Resized(img[s], w, h, st, t, d, c)
       IN Become(s, y, FALSE)

Release(s) == img[s].ex /\ img' = [img EXCEPT ![s] = EmptyImage] /\ UNCHANGED lent
Free(s) == img[s].ex /\ img' = [img EXCEPT ![s] = NoImage] /\ UNCHANGED lent

(* all pixels at once, or one channel of one pixel *)
Fill(s, px) == /\ img[s].ex /\ Len(px) = Len(img[s].px)
               /\ Become(s, [img[s] EXCEPT !.px = px], FALSE)
Store(s, x, y, c, v) ==
    /\ img[s].ex /\ x < img[s].w /\ y < img[s].h /\ c < NCh(img[s].type)
    /\ Become(s, [img[s] EXCEPT !.px[At(img[s], x, y, c)] = v], FALSE)
SetZero(s) == /\ img[s].ex
              /\ Become(s, [img[s] EXCEPT !.px = [i \in 1..Len(@) |-> 0]], TRUE)

CopyInto(x, y, c) == LET z == Fit(x, Bytes(y), c)
                     IN [z EXCEPT !.w = y.w, !.h = y.h, !.type = y.type, !.dt = y.dt,
                                  !.stride = y.stride, !.px = y.px]
Copy(d, s, c) == /\ img[d].ex /\ img[s].ex /\ CapOK(img[d], Bytes(img[s]), c)
                 /\ Become(d, CopyInto(img[d], img[s], c), TRUE)
CopyNew(d, s, c) == /\ ~img[d].ex /\ img[s].ex /\ CapOK(EmptyImage, Bytes(img[s]), c)
                    /\ img' = [img EXCEPT ![d] = CopyInto(EmptyImage, img[s], c)] /\ UNCHANGED lent

Unused(b, s) == \A t \in Slots \ {s} : ~(img[t].ex /\ img[t].kind = "lent" /\ img[t].buf = b)
FromCells(cells, w, h, st, t) ==
    [i \in 1..Count(w, h, t) |->
        LET per == w * NCh(t) IN cells[((i - 1) \div per) * st + ((i - 1) % per) + 1]]
Wrapped(w, h, st, t, d, cells) ==
    [EmptyImage EXCEPT !.w = w, !.h = h, !.type = t, !.dt = d, !.stride = st,
                       !.cap = st * h * Bpc(d), !.px = FromCells(cells, w, h, st, t)]
WrapLent(s, b, w, h, st, t, d, cells) ==
    /\ img[s].ex /\ Unused(b, s) /\ Len(cells) = st * h /\ st >= w * NCh(t)
    /\ lent' = [lent EXCEPT ![b] = [dt |-> d, c |-> cells]]
    /\ img' = [img EXCEPT ![s] = [Wrapped(w, h, st, t, d, cells) EXCEPT !.kind = "lent", !.buf = b]]
WrapGiven(s, w, h, st, t, d, cells) ==
    /\ img[s].ex /\ Len(cells) = st * h /\ st >= w * NCh(t)
    /\ img' = [img EXCEPT ![s] = [Wrapped(w, h, st, t, d, cells) EXCEPT !.kind = "heap"]]
    /\ UNCHANGED lent
Swap(s, t) == /\ img[s].ex /\ img[t].ex
              /\ img' = [img EXCEPT ![s] = img[t], ![t] = img[s]] /\ UNCHANGED lent

(* Gray <-> color, in place.  res = resulting pixels, each of which has to be  *)
(* what the conversion rule allows.                                            *)
ConvertType(s, t, res, c) ==
    /\ img[s].ex
    /\ LET x == img[s]
       IN IF x.type = t \/ x.kind = "none"
          THEN c = x.cap /\ UNCHANGED ivars
          ELSE /\ ResizeCapOK(x, x.w, x.h, 0 - 1, t, x.dt, c)
               /\ (IF t = Rgba THEN GrayToRgbaOK(x.px, res, x.dt) ELSE RgbaToGrayOK(x.px, res, x.dt)) = TRUE
               /\ Become(s, [Resized(x, x.w, x.h, 0 - 1, t, x.dt, c) EXCEPT !.px =
                      [i \in 1..Len(res) |->
                         IF t = Rgba THEN (IF i % 4 # 0 /\ x.px[((i - 1) \div 4) + 1] = UNK THEN UNK ELSE res[i])
                         ELSE IF UNK \in {x.px[4 * i - 3], x.px[4 * i - 2], x.px[4 * i - 1]} THEN UNK ELSE res[i]]], FALSE)

(* Byte <-> float for gray images; the destination's present channel type says *)
(* what to convert to                                                          *)
ConvertDtype(d, s, res, c) ==
    /\ img[d].ex /\ img[s].ex /\ d # s
    /\ LET x == img[s]
       IN IF x.dt = img[d].dt
          THEN /\ CapOK(img[d], Bytes(x), c)
               /\ Become(d, CopyInto(img[d], x, c), TRUE)
          ELSE /\ x.type = Gray
               /\ ResizeCapOK(img[d], x.w, x.h, 0 - 1, Gray, img[d].dt, c)
               /\ (IF x.dt = Uc THEN UcToF32OK(x.px, res) ELSE F32ToUcOK(x.px, res)) = TRUE
               /\ Become(d, [Resized(img[d], x.w, x.h, 0 - 1, Gray, img[d].dt, c) EXCEPT !.px =
                      [i \in 1..Len(res) |-> IF x.px[i] = UNK THEN UNK ELSE res[i]]], FALSE)

(* A per-pixel operation: destination d takes the geometry the operation       *)
(* prescribes and pixels its definition allows.                                *)
Derive(d, s, op, a, res, c) ==
    /\ img[d].ex /\ img[s].ex
    /\ LET x == img[s]
           g == Geometry(op, x, a)
           inplace == d = s
       IN /\ inplace => g.w = x.w /\ g.h = x.h /\ g.dt = x.dt
          /\ IF inplace THEN c = x.cap
             ELSE ResizeCapOK(img[d], g.w, g.h, g.stride, g.type, g.dt, c)
          /\ PixelsOK(op, x, a, g, res) = TRUE
          /\ LET y == IF inplace THEN x ELSE Resized(img[d], g.w, g.h, g.stride, g.type, g.dt, c)
             IN Become(d, [y EXCEPT !.px = res], op = "setzero")

(* difference of two images over their common rectangle *)
Subtract(d, s, t, res, c) ==
    /\ img[d].ex /\ img[s].ex /\ img[t].ex /\ d # s /\ d # t
    /\ img[s].type = Gray /\ img[t].type = Gray /\ img[s].dt = img[t].dt
    /\ LET w == Min(img[s].w, img[t].w)
           h == Min(img[s].h, img[t].h)
       IN /\ ResizeCapOK(img[d], w, h, 0 - 1, Gray, F32, c)
          /\ SubtractOK(img[s], img[t], w, h, res) = TRUE
          /\ Become(d, [Resized(img[d], w, h, 0 - 1, Gray, F32, c) EXCEPT !.px = res], FALSE)

-------------------------------------------------------------------------------
GeometryInv == \A s \in Slots : LET x == img[s] IN
    /\ Len(x.px) = Count(x.w, x.h, x.type)
    /\ x.stride >= x.w * NCh(x.type) \/ x.h = 0
    /\ Bytes(x) <= x.cap
    /\ x.kind = "none" => Bytes(x) = 0
OneImagePerBuffer == \A s, t \in Slots :
    (img[s].kind = "lent" /\ img[t].kind = "lent" /\ img[s].buf = img[t].buf) => s = t
(* the pixels a borrowing image shows are those in the caller's buffer *)
LentShows == \A s \in Slots : LET x == img[s] IN
    (x.kind = "lent" /\ lent[x.buf].dt = x.dt) =>
       \A i \in 1..(x.stride * x.h) : Visible(x, i) => lent[x.buf].c[i] = PxAt(x, i)
ImageInv == GeometryInv /\ OneImagePerBuffer /\ LentShows
===============================================================================
