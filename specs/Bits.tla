--------------------------------- MODULE Bits ---------------------------------
(* Bit arrays: n independent bits addressed by index, stored eight to a byte,  *)
(* least significant first.  UNKNOWN until zeroed or written.                  *)
EXTENDS Words, FiniteSets
CONSTANT UNKNOWN
VARIABLES n, bits       \* bits : 0..8*NBytes(n)-1 -> {0, 1, UNKNOWN}
bvars == <<n, bits>>
NBytes(k) == (k + 7) \div 8
Index(k) == 0..(8 * NBytes(k) - 1)
Init == n = 0 /\ bits = [i \in {} |-> 0]
New(k) == n' = k /\ bits' = [i \in Index(k) |-> UNKNOWN]
Zero == n' = n /\ bits' = [i \in Index(n) |-> 0]
Set(i, v) == i < n /\ n' = n /\ bits' = [bits EXCEPT ![i] = v]
Known(b) == \A j \in 0..7 : bits[8 * b + j] # UNKNOWN
ByteAt(b) == FoldLeft(LAMBDA acc, j : acc + bits[8 * b + j - 1] * Pow2(j - 1), 0, [j \in 1..8 |-> j])
BitsInv == /\ DOMAIN bits = Index(n)
           /\ \A i \in Index(n) : bits[i] \in {0, 1, UNKNOWN}
===============================================================================
