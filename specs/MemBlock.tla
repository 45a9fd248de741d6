------------------------------- MODULE MemBlock -------------------------------
(* Growable memory blocks and the vectors built on them, as their users see    *)
(* them: a handle that either refers to nothing, to heap memory it owns, or to *)
(* a caller's buffer that was only lent to it.  Cells are opaque values (bytes *)
(* for blocks, items for vectors); UNK marks a cell nobody has written yet.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Slots,      \* handles
          Bufs,       \* caller buffers that can be lent
          UNK         \* content nobody has written

VARIABLES h,          \* Slot -> handle record
          lent        \* Buf  -> sequence of cells: the caller's buffers

mvars == <<h, lent>>

None == [ex |-> FALSE, kind |-> "none", buf |-> 0, size |-> 0, cap |-> 0, data |-> <<>>]
Empty == [None EXCEPT !.ex = TRUE]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Take(s, n) == [i \in 1..n |-> s[i]]
Pad(s, n)  == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE UNK]

(* the cells a handle shows: the first `size' cells of what it refers to *)
Cells(x) == IF x.kind = "lent" THEN Take(lent[x.buf], x.size)
            ELSE IF x.kind = "heap" THEN x.data ELSE <<>>

(* x after its capacity became c > x.cap: it now owns fresh memory that starts *)
(* with the same cells; a lent buffer is left behind untouched                 *)
Grown(x, c) == [x EXCEPT !.kind = "heap", !.buf = 0, !.cap = c, !.data = Cells(x)]

(* x with exactly n cells visible (n <= x.cap) *)
Sized(x, n) == IF x.kind = "heap"
               THEN [x EXCEPT !.size = n, !.data = Pad(Take(x.data, Min(x.size, n)), n)]
               ELSE [x EXCEPT !.size = n]

(* c is the capacity the implementation picked: at least n when it must grow,  *)
(* unchanged otherwise                                                         *)
CapOK(x, n, c) == IF n > x.cap THEN c >= n ELSE c = x.cap
AfterReserve(x, n, c) == IF n > x.cap THEN Grown(x, c) ELSE x
AfterResize(x, n, c) == Sized(AfterReserve(x, n, c), n)

Init == /\ h = [s \in Slots |-> None]
        /\ lent = [b \in Bufs |-> <<>>]

Alloc(s) == /\ ~h[s].ex
            /\ h' = [h EXCEPT ![s] = Empty] /\ UNCHANGED lent

\* a block created with an initial size, a vector created with an initial capacity
NewSized(s, n, c) == /\ ~h[s].ex /\ CapOK(Empty, n, c)
                     /\ h' = [h EXCEPT ![s] = AfterResize(Empty, n, c)] /\ UNCHANGED lent
NewReserved(s, n, c) == /\ ~h[s].ex /\ CapOK(Empty, n, c)
                        /\ h' = [h EXCEPT ![s] = AfterReserve(Empty, n, c)] /\ UNCHANGED lent

Reserve(s, n, c) == /\ h[s].ex /\ CapOK(h[s], n, c)
                    /\ h' = [h EXCEPT ![s] = AfterReserve(@, n, c)] /\ UNCHANGED lent

Resize(s, n, c) == /\ h[s].ex /\ CapOK(h[s], n, c)
                   /\ h' = [h EXCEPT ![s] = AfterResize(@, n, c)] /\ UNCHANGED lent

Release(s) == /\ h[s].ex
              /\ h' = [h EXCEPT ![s] = Empty] /\ UNCHANGED lent

Unreferenced(b) == \A s \in Slots : ~(h[s].ex /\ h[s].kind = "lent" /\ h[s].buf = b)

\* the caller lends buffer b with the given content; sz of its cells are in use
WrapLent(s, b, content, sz) ==
    /\ h[s].ex /\ sz <= Len(content)
    /\ \A t \in Slots \ {s} : ~(h[t].ex /\ h[t].kind = "lent" /\ h[t].buf = b)
    /\ lent' = [lent EXCEPT ![b] = content]
    /\ h' = [h EXCEPT ![s] = [Empty EXCEPT !.kind = "lent", !.buf = b, !.size = sz,
                                           !.cap = Len(content)]]

\* the caller hands a heap buffer over for good
WrapGiven(s, content, sz) ==
    /\ h[s].ex /\ sz <= Len(content)
    /\ h' = [h EXCEPT ![s] = [Empty EXCEPT !.kind = "heap", !.size = sz, !.cap = Len(content),
                                           !.data = Take(content, sz)]]
    /\ UNCHANGED lent

Swap(s, t) == /\ h[s].ex /\ h[t].ex
              /\ h' = [h EXCEPT ![s] = h[t], ![t] = h[s]] /\ UNCHANGED lent

\* d shows the cells `src' afterwards
Put(d, src, c) ==
    LET x == AfterResize(h[d], Len(src), c)
    IN /\ CapOK(h[d], Len(src), c)
       /\ IF x.kind = "lent"
          THEN /\ lent' = [lent EXCEPT ![x.buf] = [i \in 1..Len(@) |->
                                    IF i <= Len(src) THEN src[i] ELSE @[i]]]
               /\ h' = [h EXCEPT ![d] = x]
          ELSE /\ h' = [h EXCEPT ![d] = IF x.kind = "heap" THEN [x EXCEPT !.data = src] ELSE x]
               /\ UNCHANGED lent

Copy(d, s, c) == /\ h[d].ex /\ h[s].ex /\ Put(d, Cells(h[s]), c)

CopyNew(d, s, c) == /\ ~h[d].ex /\ h[s].ex /\ CapOK(Empty, h[s].size, c)
                    /\ LET x == AfterResize(Empty, h[s].size, c)
                       IN h' = [h EXCEPT ![d] = IF x.kind = "heap"
                                                THEN [x EXCEPT !.data = Cells(h[s])] ELSE x]
                    /\ UNCHANGED lent

Store(s, i, v) == /\ h[s].ex /\ i \in 1..h[s].size
                  /\ Put(s, [Cells(h[s]) EXCEPT ![i] = v], h[s].cap)

SetZero(s) == /\ h[s].ex /\ Put(s, [i \in 1..h[s].size |-> 0], h[s].cap)

\* vectors: append one item v at the end
PushBack(s, v, c) == /\ h[s].ex /\ CapOK(h[s], h[s].size + 1, c)
                     /\ LET x == AfterResize(h[s], h[s].size + 1, c)
                        IN IF x.kind = "lent"
                           THEN /\ lent' = [lent EXCEPT ![x.buf][x.size] = v]
                                /\ h' = [h EXCEPT ![s] = x]
                           ELSE /\ h' = [h EXCEPT ![s] = [x EXCEPT !.data[x.size] = v]]
                                /\ UNCHANGED lent

Free(s) == /\ h[s].ex
           /\ h' = [h EXCEPT ![s] = None] /\ UNCHANGED lent

-------------------------------------------------------------------------------
(* Properties *)
SizeWithinCapacity == \A s \in Slots : h[s].size <= h[s].cap
DataMatchesSize == \A s \in Slots : h[s].kind = "heap" => Len(h[s].data) = h[s].size
NothingMeansEmpty == \A s \in Slots : h[s].kind = "none" => h[s].size = 0 /\ h[s].cap = 0
LentIsNotGrownInPlace == \A s \in Slots : h[s].kind = "lent" => h[s].cap <= Len(lent[h[s].buf])
OneUserPerLentBuffer == \A s, t \in Slots :
        (h[s].kind = "lent" /\ h[t].kind = "lent" /\ h[s].buf = h[t].buf) => s = t
MemInv == /\ SizeWithinCapacity /\ DataMatchesSize /\ NothingMeansEmpty
          /\ LentIsNotGrownInPlace /\ OneUserPerLentBuffer

(* growing or shrinking never loses the cells that stay visible, from any state *)
PrefixKept == \A s \in Slots : h[s].ex =>
    \A n \in 0..4 : LET y == AfterResize(h[s], n, Max(n, h[s].cap))
                     IN /\ y.size = n /\ y.cap >= n
                        /\ \A i \in 1..Min(n, h[s].size) : Cells(y)[i] = Cells(h[s])[i]
===============================================================================
