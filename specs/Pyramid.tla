------------------------------- MODULE Pyramid -------------------------------
(* Builders and the pyramids they fill.  A builder has a configuration; a      *)
(* build gives every level its size, scale, blur and pixels from the input     *)
(* image and the configuration alone, whatever builder and pyramid held.       *)
EXTENDS ImageOps, TLC
CONSTANTS Builders, Pyrs
VARIABLES cfgs, pyrs
pvars == <<cfgs, pyrs>>
NoCfg == [k |-> "none"]
NoPyr == [ex |-> FALSE]
S == 1024                       \* unit of blur: 1/S

Fast(n, s0)      == [k |-> "fast", n |-> n, steps |-> 1, p |-> 2, q |-> 1, s0 |-> Max(s0, S \div 2)]
Fine(o, st, s0)  == [k |-> "fine", n |-> o * st, steps |-> st, p |-> 2, q |-> 1, s0 |-> Max(s0, S \div 2)]
Scaled(n, p, q, s0) == [k |-> "scaled", n |-> n, steps |-> 1, p |-> p, q |-> q, s0 |-> Max(s0, S \div 2)]

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* level i (from 0) is shrunk by (p/q)^Oct(c, i)
Oct(c, i) == i \div c.steps
Shrunk(c, i, w) == (w * Pow(c.q, Oct(c, i))) \div Pow(c.p, Oct(c, i))
\* evaluated in floating point: a quotient that is an integer may come out one less
SizeOK(c, i, w, v) == \/ v = Shrunk(c, i, w)
                      \/ c.k = "scaled" /\ i > 0 /\ (w * Pow(c.q, i)) % Pow(c.p, i) = 0 /\ v = Shrunk(c, i, w) - 1
ScaleOK(c, i, s) == Abs((s * Pow(c.q, Oct(c, i))) - (F * Pow(c.p, Oct(c, i)))) <= 2 * Pow(c.q, Oct(c, i)) * Pow(c.p, Oct(c, i))
\* blur: starts at s0, doubles every octave, geometric in between
BlurOK(c, sg) ==
    /\ Abs(sg[1] - c.s0) <= 1
    /\ \A i \in 1..c.n : i + c.steps <= c.n => Abs(sg[i + c.steps] - 2 * sg[i]) <= 3
    /\ \A i \in 2..(c.n - 1) : Abs((sg[i] * sg[i]) - (sg[i - 1] * sg[i + 1])) <= 3 * sg[i + 1]
    \* the last octave, and a pyramid shorter than one: a root of two per step
    /\ \A i \in 1..(c.n - 1) : sg[i] < sg[i + 1] /\ sg[i + 1] <= 2 * sg[i] + 3
    /\ (c.steps = 2 /\ c.n >= 2) => Abs((sg[2] * sg[2]) - (2 * sg[1] * sg[1])) <= 4 * sg[2]
GeometryOK(c, w, h, lv) ==
    /\ Len(lv) = c.n
    /\ \A i \in 1..c.n : SizeOK(c, i - 1, w, lv[i].w) /\ SizeOK(c, i - 1, h, lv[i].h) /\ ScaleOK(c, i - 1, lv[i].scale)
    /\ BlurOK(c, [i \in 1..c.n |-> lv[i].sigma])

-------------------------------------------------------------------------------
(* smoothing in two passes; results in units of 1/16 (bytes) or 1/1024 (floats) *)
Pass1(x, k) == TLCEval([p \in 1..(x.w * x.h) |-> SmoothX(x, (p - 1) % x.w, (p - 1) \div x.w, k)])
SmoothY(x, xp, k, i, j) ==
    LET n == Len(k)
    IN SumTo([m \in 1..(2 * n - 1) |-> k[Abs(m - n) + 1] * xp[(Repeat(j + m - n, x.h) * x.w) + i + 1]], 2 * n - 1) \div F
\* v: smoothed value, t: slack in levels for what was cut off before
SmoothedOK(dt, res, v, t) == IF dt = 0 THEN res * 16 <= v + 8 /\ (res + 2 + t) * 16 >= v - 8
                             ELSE ((res \div 64) - v) \in -4..(24 + (24 * t))
SameImage(x, y) == x.w = y.w /\ x.h = y.h /\ x.dt = y.dt /\ x.px = y.px
SmoothOf(x, k, y) ==
    LET xp == Pass1(x, k)
    IN /\ y.w = x.w /\ y.h = x.h /\ y.dt = x.dt
       /\ \A p \in 1..(x.w * x.h) : SmoothedOK(x.dt, y.px[p], SmoothY(x, xp, k, (p - 1) % x.w, (p - 1) \div x.w), 0)
SmoothHalfOf(x, k, y) ==
    LET xp == Pass1(x, k)
    IN /\ y.w = x.w \div 2 /\ y.h = x.h \div 2 /\ y.dt = x.dt
       /\ \A p \in 1..(y.w * y.h) : SmoothedOK(x.dt, y.px[p], SmoothY(x, xp, k, 2 * ((p - 1) % y.w), 2 * ((p - 1) \div y.w)), 0)
\* anti-aliased halving, along x then along y
HalveX(x) == TLCEval([x EXCEPT !.w = x.w \div 2, !.px =
               [p \in 1..((x.w \div 2) * x.h) |-> LET s == AASumX(x, (p - 1) % (x.w \div 2), (p - 1) \div (x.w \div 2))
                                                  IN IF x.dt = 0 THEN s \div 25 ELSE s]])
HalfOf(x, y) ==
    /\ y.w = x.w \div 2 /\ y.h = x.h \div 2 /\ y.dt = x.dt
    /\ y.w * y.h > 0 =>
       LET hx == HalveX(x)
       IN \A p \in 1..(y.w * y.h) :
            LET s == AASumY(hx, (p - 1) % y.w, (p - 1) \div y.w)
            IN IF x.dt = 0 THEN y.px[p] \in (Min(s \div 25, 255) - 2)..Min(s \div 25, 255) ELSE NearOK(y.px[p], s, 625, 16)
\* the full-size image smoothed k[1], k[2], ... in turn, as whole levels (bytes) or in units of 1/F (floats)
RECURSIVE Chain(_, _, _)
Chain(x, ks, n) ==
    IF n = 0 THEN x
    ELSE LET y == Chain(x, ks, n - 1)
             xp == Pass1(y, ks[n])
         IN TLCEval([y EXCEPT !.px = [p \in 1..(x.w * x.h) |-> LET v == SmoothY(y, xp, ks[n], (p - 1) % x.w, (p - 1) \div x.w) IN IF x.dt = 0 THEN v \div 16 ELSE v * 64]])
ScaledOf(x, ks, c, i, y) ==   \* level i >= 1 from level 0
    LET v == Chain(x, ks, i)
        P == Pow(c.q, i)
        Q == Pow(c.p, i)
    IN \A p \in 1..(y.w * y.h) :
         LET b == Bilinear(v, (p - 1) % y.w, (p - 1) \div y.w, P, Q) \div (P * P)
         IN IF x.dt = 0 THEN y.px[p] \in (b - (2 * i) - 3)..(b + 1)
            ELSE y.px[p] \in (b - 512)..(b + 512 + (1536 * i))

Sized(l) == l.w * l.h > 0
(* ks[1]: kernel taking the input to level 0 (empty: none); ks[i+1]: the kernel *)
(* between level i-1 and level i, at the resolution it is applied at            *)
PixelsFollow(c, x, lv, ks) ==
    /\ IF ks[1] = <<>> THEN SameImage(x, lv[1]) ELSE SmoothOf(x, ks[1], lv[1])
    /\ \A i \in 2..c.n :
         CASE c.k = "fast" -> HalfOf(lv[i - 1], lv[i])
           [] c.k = "fine" -> Sized(lv[i - 1]) => IF (i - 1) % c.steps = 0 THEN SmoothHalfOf(lv[i - 1], ks[i], lv[i])
                                                  ELSE SmoothOf(lv[i - 1], ks[i], lv[i])
           [] c.k = "scaled" -> lv[i].dt = x.dt /\ ScaledOf(lv[1], [m \in 1..(c.n - 1) |-> ks[m + 1]], c, i - 1, lv[i])

-------------------------------------------------------------------------------
Init == cfgs = [b \in Builders |-> NoCfg] /\ pyrs = [p \in Pyrs |-> NoPyr]
Configure(b, c) == cfgs' = [cfgs EXCEPT ![b] = c] /\ UNCHANGED pyrs
\* sum: a digest of the whole pyramid, by which it is recognised later
Build(b, p, x, lv, ks, sum) ==
    /\ cfgs[b].k # "none"
    /\ GeometryOK(cfgs[b], x.w, x.h, lv) = TRUE
    /\ PixelsFollow(cfgs[b], x, lv, ks) = TRUE
    /\ pyrs' = [pyrs EXCEPT ![p] = [ex |-> TRUE, n |-> cfgs[b].n, sum |-> sum]]
    /\ UNCHANGED cfgs
\* levels with their sizes and no meaningful pixels
Prepare(b, p, w, h, lv, sum) ==
    /\ cfgs[b].k # "none"
    /\ GeometryOK(cfgs[b], w, h, lv) = TRUE
    /\ pyrs' = [pyrs EXCEPT ![p] = [ex |-> TRUE, n |-> cfgs[b].n, sum |-> sum]]
    /\ UNCHANGED cfgs
\* n levels, the first of which is the image as it is
PutBase(p, n, x, s0, lv0, sum) ==
    /\ SameImage(x, lv0) = TRUE /\ lv0.scale = F /\ lv0.sigma = s0
    /\ pyrs' = [pyrs EXCEPT ![p] = [ex |-> TRUE, n |-> n, sum |-> sum]]
    /\ UNCHANGED cfgs
\* no levels at all, until the next build
Clear(p, sum) == pyrs' = [pyrs EXCEPT ![p] = [ex |-> TRUE, n |-> 0, sum |-> sum]] /\ UNCHANGED cfgs
Drop(p) == pyrs' = [pyrs EXCEPT ![p] = NoPyr] /\ UNCHANGED cfgs
==============================================================================
