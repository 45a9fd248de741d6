--------------------------------- MODULE Color ---------------------------------
(* Gray and color pixels, and the maps that color gray values.  A pixel plane is *)
(* a sequence of gray bytes or of <<r, g, b, a>>; map values are q / Q.          *)
EXTENDS Integers, Sequences, ColorTables
VARIABLES gray, rgba    \* the two views of an image: last gray plane, last color plane
cvars == <<gray, rgba>>
Q == 4096
Opaque == 255
Luma(p) == ((30 * p[1]) + (59 * p[2]) + (11 * p[3])) \div 100
ToRgba(g) == [i \in 1..Len(g) |-> <<g[i], g[i], g[i], Opaque>>]
ToGray(c) == [i \in 1..Len(c) |-> Luma(c[i])]
Maps == <<"gray", "viridis", "plasma", "magma", "cubehelix">>
Table(m) == CASE m = "viridis" -> Viridis [] m = "plasma" -> Plasma [] m = "magma" -> Magma [] m = "cubehelix" -> Cubehelix
Clip(q) == IF q < 0 THEN 0 ELSE IF q > Q THEN Q ELSE q
\* channel ch of the map at q / Q, in hundred thousandths
Level(m, q, ch) ==
    IF m = "gray" THEN (Clip(q) * 3125) \div (Q \div 32)
    ELSE LET t == Table(m)  n == Len(t)  x == (n - 1) * Clip(q)  k == (x \div Q) + 1  a == x % Q
         IN IF k = n THEN t[n][ch] ELSE (((Q - a) * t[k][ch]) + (a * t[k + 1][ch])) \div Q
\* the byte of a level, truncated; slack for single precision
ByteOK(v, lev) == LET x == 255 * lev  s == 2000 IN v \in ((IF x < s THEN 0 ELSE (x - s) \div 100000)..((x + s) \div 100000)) /\ v <= 255
ColorInit == gray = <<>> /\ rgba = <<>>
DoRgba(g) == gray' = g /\ rgba' = ToRgba(g)
DoGray(c) == rgba' = c /\ gray' = ToGray(c)
Back == rgba # <<>> /\ gray' = ToGray(rgba) /\ UNCHANGED rgba
\* ---- properties
Bytes == /\ \A i \in 1..Len(gray) : gray[i] \in 0..255
         /\ \A i \in 1..Len(rgba) : \A ch \in 1..4 : rgba[i][ch] \in 0..255
Neutral(c) == \A i \in 1..Len(c) : c[i][1] = c[i][2] /\ c[i][2] = c[i][3]
\* gray colors keep their gray: in particular gray to color and back is the identity
GrayKept == Neutral(rgba) => gray = [i \in 1..Len(rgba) |-> rgba[i][1]]
Between == \A i \in 1..Len(rgba) : LET p == rgba[i] IN (\E a \in 1..3 : gray[i] >= p[a]) /\ (\E a \in 1..3 : gray[i] <= p[a])
================================================================================
