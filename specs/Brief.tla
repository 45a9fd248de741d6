--------------------------------- MODULE Brief ---------------------------------
(* Binary descriptors: extractors (a table of point pairs), the bit string they  *)
(* give at a position of a pyramid, streams of extractors, and maps from ids to  *)
(* descriptors searched by Hamming distance.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ext,     \* id -> [n, r, off, lo]; n = 0: none
          known,   \* set of <<n, r, seed, off>> seen
          file,    \* records written, in order, and how many were read back
          map      \* [n, items]: items are <<id, descriptor>>
bvars == <<ext, known, file, map>>
Exts == {1, 2}
NoExt == [n |-> 0, r |-> 0, off |-> <<>>, lo |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* a pair is far enough apart, as far as a disc this small allows
MinD2(r) == Min(9, 2 * (r - 1) * (r - 1))
PairOK(r, o) == /\ \A c \in 1..4 : o[c] \in (1 - r)..(r - 1)
                /\ ((o[3] - o[1]) * (o[3] - o[1])) + ((o[4] - o[2]) * (o[4] - o[2])) >= MinD2(r)
TableOK(n, r, off) == Len(off) = 8 * n /\ \A i \in 1..Len(off) : PairOK(r, off[i])
LimitsOf(off) == LET xs == {off[i][1] : i \in 1..Len(off)} \cup {off[i][3] : i \in 1..Len(off)}
                     ys == {off[i][2] : i \in 1..Len(off)} \cup {off[i][4] : i \in 1..Len(off)}
                     lo(S) == CHOOSE m \in S : \A v \in S : m <= v
                     hi(S) == CHOOSE m \in S : \A v \in S : v <= m
                 IN <<lo(xs), hi(xs), lo(ys), hi(ys)>>

-------------------------------------------------------------------------------
(* sampling.  A level has w, h, px and a scale p/q; positions of level v are     *)
(* looked up in level v+lo.  fuzz: the scales or the angle are not exactly        *)
(* representable, so a coordinate that is an integer may come out just below it.  *)
Tr(num, den) == IF num >= 0 THEN num \div den ELSE 0 - ((0 - num) \div den)
K == 1000
Coords(num, den, fuzz) == IF fuzz THEN {Tr((num * K) - 1, den * K), Tr((num * K) + 1, den * K)} ELSE {Tr(num, den)}
\* ratio of scales: level a to level b
Num(a, b) == a.p * b.q
Den(a, b) == a.q * b.p
\* rotation c/d, s/d (exact: 1, 0, 1)
RotX(x, ox, oy, rot) == (x * rot.d) + (rot.c * ox) + (rot.s * oy)
RotY(y, ox, oy, rot) == (y * rot.d) - (rot.s * ox) + (rot.c * oy)
None == [c |-> 1, s |-> 0, d |-> 1]
XsOf(a, b, x, ox, oy, rot, fuzz) == Coords(RotX(x, ox, oy, rot) * Num(a, b), rot.d * Den(a, b), fuzz)
YsOf(a, b, y, ox, oy, rot, fuzz) == Coords(RotY(y, ox, oy, rot) * Num(a, b), rot.d * Den(a, b), fuzz)
InW(b, X) == {u \in X : u >= 0 /\ u < b.w}
InH(b, Y) == {u \in Y : u >= 0 /\ u < b.h}
\* possible outcomes of "all inside" for a pair list
SurelyIn(a, b, x, y, off, rot, fuzz) == \A i \in 1..Len(off) : \A c \in {1, 3} :
    LET X == XsOf(a, b, x, off[i][c], off[i][c + 1], rot, fuzz)
        Y == YsOf(a, b, y, off[i][c], off[i][c + 1], rot, fuzz)
    IN InW(b, X) = X /\ InH(b, Y) = Y
MaybeIn(a, b, x, y, off, rot, fuzz) == \A i \in 1..Len(off) : \A c \in {1, 3} :
    InW(b, XsOf(a, b, x, off[i][c], off[i][c + 1], rot, fuzz)) # {} /\ InH(b, YsOf(a, b, y, off[i][c], off[i][c + 1], rot, fuzz)) # {}
Values(b, X, Y) == {b.px[(v * b.w) + u + 1] : u \in InW(b, X), v \in InH(b, Y)}
BitsOf(a, b, x, y, o, rot, fuzz) ==
    LET V0 == Values(b, XsOf(a, b, x, o[1], o[2], rot, fuzz), YsOf(a, b, y, o[1], o[2], rot, fuzz))
        V1 == Values(b, XsOf(a, b, x, o[3], o[4], rot, fuzz), YsOf(a, b, y, o[3], o[4], rot, fuzz))
    IN {IF u > v THEN 1 ELSE 0 : u \in V0, v \in V1}
DescOK(e, a, b, x, y, rot, fuzz, bits) ==
    Len(bits) = 8 * e.n /\ \A i \in 1..Len(bits) : bits[i] \in BitsOf(a, b, x, y, e.off[i], rot, fuzz)
\* acceptance of position x, y of level v
AcceptOK(e, lv, v, x, y, rot, fuzz, ok) ==
    IF v + e.lo > Len(lv) THEN ~ok
    ELSE /\ SurelyIn(lv[v], lv[v + e.lo], x, y, e.off, rot, fuzz) => ok
         /\ ok => MaybeIn(lv[v], lv[v + e.lo], x, y, e.off, rot, fuzz)

(* Hamming distance of bit strings *)
Distance(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})

-------------------------------------------------------------------------------
Init == ext = [x \in Exts |-> NoExt] /\ known = {} /\ file = [recs |-> <<>>, pos |-> 0] /\ map = [n |-> 32, items |-> <<>>]
Deterministic(n, r, seed, off) == \A k \in known : (k[1] = n /\ k[2] = r /\ k[3] = seed) => k[4] = off
\* a table drawn with a seed; seed "": not reproducible
Draw(x, n, r, seed, off, lo) ==
    /\ TableOK(n, r, off) = TRUE
    /\ (seed # "" => Deterministic(n, r, seed, off)) = TRUE
    /\ ext' = [ext EXCEPT ![x] = [n |-> n, r |-> r, off |-> off, lo |-> lo]]
    /\ known' = IF seed = "" THEN known ELSE known \cup {<<n, r, seed, off>>}
    /\ UNCHANGED <<file, map>>
Make(x, n, r, seed, off) == Draw(x, n, r, seed, off, 2)
Resize(x, n, r, off) == Draw(x, n, r, "", off, ext[x].lo)
Reseed(x, seed, off) == Draw(x, ext[x].n, ext[x].r, seed, off, ext[x].lo)
SetTable(x, off) == /\ Len(off) = 8 * ext[x].n /\ ext' = [ext EXCEPT ![x].off = off] /\ UNCHANGED <<known, file, map>>
SetLevel(x, lo) == ext' = [ext EXCEPT ![x].lo = lo] /\ UNCHANGED <<known, file, map>>
Free(x) == ext' = [ext EXCEPT ![x] = NoExt] /\ UNCHANGED <<known, file, map>>
Save(x) == file' = [file EXCEPT !.recs = Append(@, ext[x])] /\ UNCHANGED <<ext, known, map>>
\* reading the next record; a stream cut inside or before it fails
Load(x, ok) == /\ ok = (file.pos < Len(file.recs))
               /\ ext' = [ext EXCEPT ![x] = IF ok THEN file.recs[file.pos + 1] ELSE NoExt]
               /\ file' = IF ok THEN [file EXCEPT !.pos = @ + 1] ELSE file
               /\ UNCHANGED <<known, map>>
Cut == file' = [file EXCEPT !.recs = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<ext, known, map>>
Look == UNCHANGED bvars

MapNew(n) == map' = [n |-> n, items |-> <<>>] /\ UNCHANGED <<ext, known, file>>
MapAdd(items) == map' = [map EXCEPT !.items = @ \o items] /\ UNCHANGED <<ext, known, file>>
MapClear == map' = [map EXCEPT !.items = <<>>] /\ UNCHANGED <<ext, known, file>>
NearestOK(d, id, cost) ==
    LET ds == {Distance(d, map.items[i][2]) : i \in 1..Len(map.items)}
        m == CHOOSE v \in ds : \A u \in ds : v <= u
    \* among none nothing is near: farther than any descriptor can be
    IN IF map.items = <<>> THEN cost > 8 * map.n
       ELSE cost = m /\ \E i \in 1..Len(map.items) : map.items[i][1] = id /\ Distance(d, map.items[i][2]) = m
ByIdOK(id, found, d) == IF \E i \in 1..Len(map.items) : map.items[i][1] = id
                        THEN found /\ \E i \in 1..Len(map.items) : map.items[i][1] = id /\ map.items[i][2] = d
                        ELSE ~found
===============================================================================
