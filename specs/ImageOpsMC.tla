----------------------------- MODULE ImageOpsMC ------------------------------
(* All small gray byte images and the operations on them: the definitions are *)
(* checked for consistency, and every (image, operation) pair is a test.       *)
EXTENDS ImageOps, TLC, Json
CONSTANTS Dims, Vals, MaxLen, Emit
DimsQ == {<<w, h>> : w \in 1..5, h \in 1..3} \ {<<5, 3>>, <<4, 3>>, <<5, 2>>, <<3, 3>>, <<4, 2>>}
DimsT == {<<w, h>> : w \in 1..6, h \in 1..4} \ {<<5, 3>>, <<5, 4>>, <<6, 3>>, <<6, 4>>, <<4, 4>>, <<4, 3>>, <<6, 2>>}
DimsV == {<<w, h>> : w \in 1..3, h \in 1..2}
VARIABLES x, hist
vars == <<x, hist>>
view == x

Apply(op, a) ==
    LET g == Geometry(op, x, a)
        I(p) == (p - 1) % g.w
        J(p) == (p - 1) \div g.w
        V(p) == CASE op = "down" -> G(x, 2 * I(p), 2 * J(p))
                  [] op = "up"   -> UpNum(x, I(p), J(p))[1] \div UpNum(x, I(p), J(p))[2]
                  [] op = "aax"  -> AASumX(x, I(p), J(p)) \div 25
                  [] op = "aay"  -> AASumY(x, I(p), J(p)) \div 25
                  [] op = "boxx" -> BoxSumX(x, I(p), J(p), a.rx) \div (2 * a.rx + 1)
                  [] op = "boxy" -> BoxSumY(x, I(p), J(p), a.ry) \div (2 * a.ry + 1)
                  [] op = "box"  -> BoxSumY(BoxX(x, a.rx), I(p), J(p), a.ry) \div (2 * a.ry + 1)
                  [] op = "derx" -> (DX(x, I(p), J(p)) * F) \div 255
                  [] op = "dery" -> (DY(x, I(p), J(p)) * F) \div 255
                  [] op = "scale" -> Bilinear(x, I(p), J(p), a.p, a.q) \div (a.p * a.p)
                  [] op = "axpy" -> Clamp(((a.a * x.px[p]) + a.y) \div 16, 0, 255)
    IN [w |-> g.w, h |-> g.h, type |-> 0, dt |-> g.dt, stride |-> g.stride, px |-> [p \in 1..(g.w * g.h) |-> V(p)]]

Z == [rx |-> 1, ry |-> 1, p |-> 1, q |-> 1, a |-> 16, y |-> 0]
Ops == {<<"down", Z>>, <<"up", Z>>, <<"aax", Z>>, <<"aay", Z>>, <<"derx", Z>>, <<"dery", Z>>}
       \cup {<<"boxx", [Z EXCEPT !.rx = r]>> : r \in 1..2} \cup {<<"boxy", [Z EXCEPT !.ry = r]>> : r \in 1..2}
       \cup {<<"box", [Z EXCEPT !.ry = 2]>>, <<"box", [Z EXCEPT !.rx = 2]>>}
       \cup {<<"scale", [Z EXCEPT !.p = r[1], !.q = r[2]]>> : r \in {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<3, 4>>}}
       \cup {<<"axpy", [Z EXCEPT !.a = r[1], !.y = r[2]]>> : r \in {<<32, 5>>, <<8, 0 - 80>>, <<0 - 16, 4080>>}}

MCInit == /\ \E g \in Dims : \E px \in [1..(g[1] * g[2]) -> Vals] :
                x = [w |-> g[1], h |-> g[2], type |-> 0, dt |-> 0, stride |-> g[1], px |-> px]
          /\ hist = <<[op |-> "img", w |-> x.w, h |-> x.h, px |-> x.px]>>
MCStep == \E o \in Ops : /\ x.dt = 0 /\ x.w > 0 /\ x.h > 0 /\ Len(hist) < MaxLen
                         /\ x' = Apply(o[1], o[2])
                         /\ hist' = Append(hist, [op |-> o[1], a |-> o[2]])
MCSpec == MCInit /\ [][MCStep]_vars
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))

-------------------------------------------------------------------------------
Ready == Len(hist) = 1 /\ x.dt = 0 /\ x.w > 0 /\ x.h > 0
T(i) == [i EXCEPT !.w = i.h, !.h = i.w,
                  !.px = [p \in 1..(i.w * i.h) |-> G(i, (p - 1) \div i.h, (p - 1) % i.h)]]
\* the definitions and what is accepted for them agree
Accepted == Ready => \A o \in Ops : PixelsOK(o[1], x, o[2], Geometry(o[1], x, o[2]), Apply(o[1], o[2]).px)
\* sampling up and down again is the identity; scaling by one too
DownUp == Ready => LET u == Apply("up", Z)
                   IN \A p \in 1..Len(x.px) : G(u, 2 * ((p - 1) % x.w), 2 * ((p - 1) \div x.w)) = x.px[p]
ScaleOne == Ready => Apply("scale", Z).px = x.px
\* averages stay within the range of the image
InRange == Ready => \A o \in Ops : o[1] \notin {"derx", "dery", "axpy"} =>
              LET r == Apply(o[1], o[2]).px IN \A p \in 1..Len(r) : MinPx(x) <= r[p] /\ r[p] <= MaxPx(x)
\* x and y directions are each other's transpose
Transposed == Ready => \A i \in 0..(x.w - 1), j \in 0..(x.h - 1) :
                 /\ DX(x, i, j) = DY(T(x), j, i)
                 /\ \A r \in 1..2 : BoxSumX(x, i, j, r) = BoxSumY(T(x), j, i, r)
                 /\ 2 * i < x.w => AASumX(x, i, j) = AASumY(T(x), j, i)
Flat == (Ready /\ MinPx(x) = MaxPx(x)) => \A p \in 1..Len(x.px) :
            Apply("derx", Z).px[p] = 0 /\ Apply("dery", Z).px[p] = 0
===============================================================================
