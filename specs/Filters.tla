------------------------------- MODULE Filters -------------------------------
(* Filtering one line of samples.  A line is loaded into a buffer with b        *)
(* further samples on either side, then convolved in place; the first n samples *)
(* of the buffer are the result.                                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES data,       \* the line as it was loaded
          buf,        \* the buffer
          border      \* samples on either side
fvars == <<data, buf, border>>
Zero == 0  Repeat == 1  Mirror == 2
\* reflection at both ends, as often as it takes; the end sample itself is not doubled
Fold(i, n) == IF n = 1 THEN 0 ELSE LET p == 2 * (n - 1) r == i % p IN IF r < n THEN r ELSE p - r
Sample(d, i, mode) ==
    LET n == Len(d)
    IN IF i >= 0 /\ i < n THEN d[i + 1]
       ELSE CASE mode = Zero -> 0
              [] mode = Repeat -> d[IF i < 0 THEN 1 ELSE n]
              [] OTHER -> d[Fold(i, n) + 1]
Bordered(d, b, mode) == [k \in 1..(Len(d) + (2 * b)) |-> Sample(d, k - 1 - b, mode)]
RECURSIVE SumFn(_, _)
SumFn(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumFn(f, S \ {i})
\* k[1] is the centre of a symmetric kernel; the buffer has Len(k) - 1 samples on either side
SymAt(u, k, i) == SumFn([j \in (1 - Len(k))..(Len(k) - 1) |-> k[(IF j < 0 THEN -j ELSE j) + 1] * u[i + Len(k) - 1 + j]], (1 - Len(k))..(Len(k) - 1))
ConvSym(u, k) == [i \in 1..(Len(u) - (2 * (Len(k) - 1))) |-> SymAt(u, k, i)]
\* sums of 2 r + 1 neighbours
BoxSum(u, r) == [i \in 1..(Len(u) - (2 * r)) |-> SumFn([j \in 0..(2 * r) |-> u[i + j]], 0..(2 * r))]
FilterInit == data = <<>> /\ buf = <<>> /\ border = 0
Load(d, b, mode) == data' = d /\ border' = b /\ buf' = Bordered(d, b, mode)
Sym(k) == Len(k) = border + 1 /\ buf # <<>> /\ buf' = ConvSym(buf, k) /\ border' = 0 /\ UNCHANGED data
Box(r) == r = border /\ buf # <<>> /\ buf' = BoxSum(buf, r) /\ border' = 0 /\ UNCHANGED data
\* ---- Gaussian kernels.  sigma in eighths, truncation in halves
Size(s8, f2) == LET n == ((s8 * f2) \div 8) + 1
                    o == IF n % 2 = 0 THEN n + 1 ELSE n
                IN IF o < 3 THEN 3 ELSE o
Sigmas == <<4, 6, 8, 12, 16, 24>>
\* exp(- i^2 / (2 sigma^2)) in ten thousandths
Bell == <<<<10000, 1353, 3, 0, 0, 0, 0, 0, 0, 0>>,
               <<10000, 4111, 286, 3, 0, 0, 0, 0, 0, 0>>,
               <<10000, 6065, 1353, 111, 3, 0, 0, 0, 0, 0>>,
               <<10000, 8007, 4111, 1353, 286, 39, 3, 0, 0, 0>>,
               <<10000, 8825, 6065, 3247, 1353, 439, 111, 22, 3, 0>>,
               <<10000, 9460, 8007, 6065, 4111, 2494, 1353, 657, 286, 111>>>>
BellOf(s8) == Bell[CHOOSE i \in 1..Len(Sigmas) : Sigmas[i] = s8]
Weight(s8, nk) == BellOf(s8)[1] + (2 * SumFn(BellOf(s8), 2..nk))
\* ---- properties
TypeOK == border >= 0 /\ Len(buf) = Len(data) + (2 * border)
Const(n, c) == [i \in 1..n |-> c]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* a border never changes the line, and for the symmetric modes loading commutes with reversal
Inner(b) == SubSeq(buf, b + 1, b + Len(data))
LineKept == border > 0 => Inner(border) = data
Symmetric == data # <<>> => \A mode \in 0..2 : Bordered(Rev(data), 2, mode) = Rev(Bordered(data, 2, mode))
\* a constant line stays constant under repeated and mirrored borders
Flat == \A mode \in {Repeat, Mirror} : data # <<>> =>
            LET c == Const(Len(data), data[1]) IN ConvSym(Bordered(c, 2, mode), <<3, 2, 1>>) = Const(Len(data), 9 * data[1])
BoxIsSym == data # <<>> => BoxSum(Bordered(data, 2, Mirror), 2) = ConvSym(Bordered(data, 2, Mirror), <<1, 1, 1>>)
===============================================================================
