------------------------------- MODULE StrArray -------------------------------
(* String arrays (lists of byte strings, or NULLS for an element never set)    *)
(* and a binary stream that arrays are appended to and read back from.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS NULLS, NONE, Arrays
VARIABLES arr,     \* array -> list, or NONE when it does not exist
          st       \* [items, ends, len, pos]: written lists, byte offset after each, intact length, position
svars == <<arr, st>>
UNPOS == 0 - 1
Fresh == [items |-> <<>>, ends |-> <<>>, len |-> 0, pos |-> 0]
Init == arr = [a \in Arrays |-> NONE] /\ st = Fresh

Ex(a) == arr[a] # NONE
Resized(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE NULLS]
Upd(a, s) == arr' = [arr EXCEPT ![a] = s] /\ UNCHANGED st
Create(a, s) == ~Ex(a) /\ Upd(a, s)
Drop(a) == Ex(a) /\ Upd(a, NONE)
Resize(a, n) == Ex(a) /\ Upd(a, Resized(arr[a], n))
Set(a, i, s) == Ex(a) /\ i \in 1..Len(arr[a]) /\ Upd(a, [arr[a] EXCEPT ![i] = s])
Append1(a, s) == Ex(a) /\ Upd(a, Append(arr[a], s))
Matches(a, s) == {i \in 1..Len(arr[a]) : arr[a][i] = s}
\* first match, 0 if there is none
FindIdx(a, s) == IF Matches(a, s) = {} THEN 0 ELSE CHOOSE i \in Matches(a, s) : \A j \in Matches(a, s) : i <= j
Find(a, s) == Ex(a) /\ UNCHANGED svars

AllSet(a) == \A i \in 1..Len(arr[a]) : arr[a][i] # NULLS
Write(a, end) == /\ Ex(a) /\ AllSet(a) /\ st.pos = st.len /\ end > st.len
                 /\ st' = [st EXCEPT !.items = Append(@, arr[a]), !.ends = Append(@, end), !.len = end, !.pos = end]
                 /\ UNCHANGED arr
Rewind == st' = [st EXCEPT !.pos = 0] /\ UNCHANGED arr
Start(i) == IF i = 1 THEN 0 ELSE st.ends[i - 1]
\* cut the stream to its first k bytes and go back to its start
Truncate(k) == /\ k < st.len /\ UNCHANGED arr
               /\ LET m == Cardinality({i \in 1..Len(st.ends) : st.ends[i] <= k})
                  IN st' = [items |-> SubSeq(st.items, 1, m), ends |-> SubSeq(st.ends, 1, m), len |-> k, pos |-> 0]
Here == {i \in 1..Len(st.items) : Start(i) = st.pos /\ st.ends[i] <= st.len}
CanRead == st.pos # UNPOS /\ Here # {}
Read(a) == /\ Ex(a) /\ CanRead
           /\ LET i == CHOOSE i \in Here : TRUE
              IN arr' = [arr EXCEPT ![a] = st.items[i]] /\ st' = [st EXCEPT !.pos = st.ends[i]]
ReadNew(a) == /\ ~Ex(a) /\ CanRead
              /\ LET i == CHOOSE i \in Here : TRUE
                 IN arr' = [arr EXCEPT ![a] = st.items[i]] /\ st' = [st EXCEPT !.pos = st.ends[i]]
\* nothing complete to read: reported as a failure; the target is given up by the caller
ReadFails(a) == /\ st.pos # UNPOS /\ ~CanRead
                /\ arr' = [arr EXCEPT ![a] = NONE] /\ st' = [st EXCEPT !.pos = UNPOS]

EndsGrow == \A i \in 1..Len(st.ends) : Start(i) < st.ends[i]
SameLength == Len(st.ends) = Len(st.items)
StreamHoldsNoUnset == \A i \in 1..Len(st.items) : \A j \in 1..Len(st.items[i]) : st.items[i][j] # NULLS
StrInv == EndsGrow /\ SameLength /\ StreamHoldsNoUnset
===============================================================================
