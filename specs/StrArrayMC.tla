------------------------------ MODULE StrArrayMC ------------------------------
EXTENDS StrArray, TLC, Json
NullVal == <<0 - 1>>
StrsDef == {<<>>, <<97>>}
CONSTANTS Strs, MaxLen, MaxItems, MaxDepth, Emit
VARIABLE hist
vars == <<arr, st, hist>>
view == <<arr, st>>
MCInit == Init /\ hist = <<>>
Log(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
R(op, a, i, s) == [op |-> op, a |-> a, i |-> i, s |-> s]
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE 8 + Len(Head(s)) + Bytes(Tail(s))
MCCreate == \E a \in Arrays, n \in 0..2 : Create(a, Resized(<<>>, n)) /\ Log(R("new", a, n, <<>>))
MCDrop == \E a \in Arrays : Drop(a) /\ Log(R("free", a, 0, <<>>))
MCResize == \E a \in Arrays, n \in 0..MaxLen : Resize(a, n) /\ Log(R("resize", a, n, <<>>))
MCSet == \E a \in Arrays, i \in 1..MaxLen, s \in Strs \cup {NULLS} : Set(a, i, s) /\ Log(R("set", a, i, s))
MCAppend == \E a \in Arrays, s \in Strs : Ex(a) /\ Len(arr[a]) < MaxLen /\ Append1(a, s) /\ Log(R("append", a, 0, s))
MCSetSelf == \E a \in Arrays, i, j \in 1..MaxLen :
               Ex(a) /\ j <= Len(arr[a]) /\ Set(a, i, arr[a][j]) /\ Log(R("setself", a, i, <<j>>))
MCFind == \E a \in Arrays, s \in Strs : Find(a, s) /\ Log(R("find", a, 0, s))
MCWrite == \E a \in Arrays : Len(st.items) < MaxItems /\ Write(a, st.len + 4 + Bytes(arr[a])) /\ Log(R("write", a, 0, <<>>))
MCRewind == st.len > 0 /\ st.pos # 0 /\ Rewind /\ Log(R("rewind", 0, 0, <<>>))
MCTruncate == \E k \in 0..(st.len - 1) : k + 3 >= st.len /\ Truncate(k) /\ Log(R("cut", 0, st.len - k, <<>>))
MCRead == \E a \in Arrays : Read(a) /\ Log(R("read", a, 0, <<>>))
MCReadNew == \E a \in Arrays : ReadNew(a) /\ Log(R("readnew", a, 0, <<>>))
MCReadFails == \E a \in Arrays : Ex(a) /\ ReadFails(a) /\ Log(R("read", a, 0, <<>>))
MCNext == MCCreate \/ MCDrop \/ MCResize \/ MCSet \/ MCAppend \/ MCSetSelf \/ MCFind \/ MCWrite \/ MCRewind
          \/ MCTruncate \/ MCRead \/ MCReadNew \/ MCReadFails
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
\* what was written is what a complete read returns
ReadBack == CanRead => \E i \in 1..Len(st.items) : Start(i) = st.pos
===============================================================================
