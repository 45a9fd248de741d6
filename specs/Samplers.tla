-------------------------------- MODULE Samplers --------------------------------
(* Samplers: each one is a position in the stream of its seed; drawing from one *)
(* never disturbs another.                                                      *)
EXTENDS Integers, Sequences
CONSTANTS Ids
VARIABLES smp      \* id -> [ex, seed, pos]: how many 32-bit words were drawn since seeding
None == [ex |-> FALSE, seed |-> 0, pos |-> 0]
SInit == smp = [i \in Ids |-> None]
Make(i, seed) == smp' = [smp EXCEPT ![i] = [ex |-> TRUE, seed |-> seed, pos |-> 0]]
Reseed(i, seed) == smp[i].ex /\ smp' = [smp EXCEPT ![i] = [ex |-> TRUE, seed |-> seed, pos |-> 0]]
Advance(i, n) == smp[i].ex /\ smp' = [smp EXCEPT ![i].pos = @ + n]
Discard(i) == smp[i].ex /\ smp' = [smp EXCEPT ![i] = None]
===============================================================================
