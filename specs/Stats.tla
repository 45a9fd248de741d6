-------------------------------- MODULE Stats --------------------------------
(* Order statistics and moments of a bag of numbers.  Values are integers; the *)
(* order statistics are kept doubled so that they stay integers.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE x            \* the sample, in the order it was given
svars == <<x>>
StatsInit == x = <<>>
Add(v) == x' = Append(x, v)
Clear == x' = <<>>

Range(s) == {s[i] : i \in 1..Len(s)}
Occ(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in Range(a) \cup Range(b) : Occ(a, v) = Occ(b, v)
\* position i holds the value with i - 1 values before it (ties by position)
Rank(s, i) == Cardinality({j \in 1..Len(s) : s[j] < s[i] \/ (s[j] = s[i] /\ j < i)}) + 1
Sorted(s) == [k \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : Rank(s, i) = k]]
RECURSIVE Sum(_), Sum2(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Sum2(s) == IF s = <<>> THEN 0 ELSE (Head(s) * Head(s)) + Sum2(Tail(s))
\* twice the median of a sorted, nonempty sequence
Med2(s) == LET n == Len(s) IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[(n \div 2) + 1]
Lower(s) == SubSeq(s, 1, Len(s) \div 2)
Upper(s) == SubSeq(s, Len(s) - (Len(s) \div 2) + 1, Len(s))
Summary(s) ==
    IF s = <<>> THEN [n |-> 0, min |-> 0, max |-> 0, med2 |-> 0, lq2 |-> 0, uq2 |-> 0, sum |-> 0, dev |-> 0]
    ELSE LET o == Sorted(s)
         IN [n |-> Len(s), min |-> o[1], max |-> o[Len(s)], med2 |-> Med2(o),
             lq2 |-> IF Len(s) = 1 THEN 2 * o[1] ELSE Med2(Lower(o)),
             uq2 |-> IF Len(s) = 1 THEN 2 * o[1] ELSE Med2(Upper(o)),
             sum |-> Sum(s),
             dev |-> (Len(s) * Sum2(s)) - (Sum(s) * Sum(s))]     \* n (n - 1) times the variance
\* ---- the error function at eighths, in millionths
ErfTable == <<0, 140316, 276326, 404117, 520500, 623241, 711156, 784075, 842701, 888388, 922900, 948170, 966105, 978444, 986672, 991990, 995322, 997346, 998537, 999217, 999593, 999795, 999899, 999952, 999978, 999990, 999996, 999998, 999999, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000>>
Erf8(k) == LET a == IF k < 0 THEN -k ELSE k
               v == IF a > 40 THEN 1000000 ELSE ErfTable[a + 1]
           IN IF k < 0 THEN -v ELSE v
\* ---- properties of the definition itself
Ordered == LET r == Summary(x) IN x # <<>> => /\ 2 * r.min <= r.lq2 /\ r.lq2 <= r.med2 /\ r.med2 <= r.uq2 /\ r.uq2 <= 2 * r.max
                                              /\ Len(x) * r.min <= r.sum /\ r.sum <= Len(x) * r.max
                                              /\ r.dev >= 0 /\ (r.dev = 0 <=> r.min = r.max)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == Summary(Rev(x)) = Summary(x)
Neg(s) == [i \in 1..Len(s) |-> -s[i]]
Mirror == x # <<>> => LET a == Summary(x) b == Summary(Neg(x))
          IN b.min = -a.max /\ b.med2 = -a.med2 /\ b.lq2 = -a.uq2 /\ b.uq2 = -a.lq2 /\ b.sum = -a.sum /\ b.dev = a.dev
Shift(s, c) == [i \in 1..Len(s) |-> s[i] + c]
Moves == x # <<>> => LET a == Summary(x) b == Summary(Shift(x, 3))
         IN b.min = a.min + 3 /\ b.med2 = a.med2 + 6 /\ b.lq2 = a.lq2 + 6 /\ b.uq2 = a.uq2 + 6 /\ b.dev = a.dev
\* as many values at or below the median as at or above it
Halves == x # <<>> => LET m == Summary(x).med2
          IN 2 * Cardinality({i \in 1..Len(x) : 2 * x[i] <= m}) >= Len(x) /\ 2 * Cardinality({i \in 1..Len(x) : 2 * x[i] >= m}) >= Len(x)
===============================================================================
