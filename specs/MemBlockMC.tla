------------------------------ MODULE MemBlockMC ------------------------------
EXTENDS MemBlock, TLC, Json
CONSTANTS Sizes, Vals, MaxDepth, Emit
VARIABLE hist
vars == <<h, lent, hist>>
view == <<h, lent>>

MCInit == Init /\ hist = <<>>
Log(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
Content(n) == [i \in 1..n |-> 10 + i]

MCAlloc == \E s \in Slots : Alloc(s) /\ Log([op |-> "alloc", s |-> s])
MCNew == \E s \in Slots, n \in Sizes : NewSized(s, n, n) /\ Log([op |-> "new", s |-> s, n |-> n])
MCNewR == \E s \in Slots, n \in Sizes : NewReserved(s, n, n) /\ Log([op |-> "newr", s |-> s, n |-> n])
MCReserve == \E s \in Slots, n \in Sizes : Reserve(s, n, Max(n, h[s].cap)) /\ Log([op |-> "reserve", s |-> s, n |-> n])
MCResize == \E s \in Slots, n \in Sizes : Resize(s, n, Max(n, h[s].cap)) /\ Log([op |-> "resize", s |-> s, n |-> n])
MCRelease == \E s \in Slots : Release(s) /\ Log([op |-> "release", s |-> s])
MCWrapLent == \E s \in Slots, b \in Bufs, z \in Sizes, n \in Sizes :
                 WrapLent(s, b, Content(n), z) /\ Log([op |-> "lend", s |-> s, b |-> b, n |-> z, c |-> n])
MCWrapGiven == \E s \in Slots, z \in Sizes, n \in Sizes \ {0} :
                 WrapGiven(s, Content(n), z) /\ Log([op |-> "give", s |-> s, n |-> z, c |-> n])
MCSwap == \E s, t \in Slots : s # t /\ Swap(s, t) /\ Log([op |-> "swap", s |-> s, t |-> t])
MCCopy == \E s, t \in Slots : Copy(s, t, Max(h[t].size, h[s].cap)) /\ Log([op |-> "copy", s |-> s, t |-> t])
MCCopyNew == \E s, t \in Slots : CopyNew(s, t, h[t].size) /\ Log([op |-> "copynew", s |-> s, t |-> t])
MCStore == \E s \in Slots, v \in Vals : h[s].size > 0 /\ Store(s, h[s].size, v) /\ Log([op |-> "store", s |-> s, n |-> h[s].size, v |-> v])
MCSetZero == \E s \in Slots : SetZero(s) /\ Log([op |-> "zero", s |-> s])
MCPush == \E s \in Slots, v \in Vals : h[s].size < 3 /\ PushBack(s, v, Max(h[s].cap, h[s].size + 1)) /\ Log([op |-> "push", s |-> s, v |-> v])
MCFree == \E s \in Slots : Free(s) /\ Log([op |-> "free", s |-> s])

MCNext == MCAlloc \/ MCNew \/ MCNewR \/ MCReserve \/ MCResize \/ MCRelease \/ MCWrapLent \/ MCWrapGiven
          \/ MCSwap \/ MCCopy \/ MCCopyNew \/ MCStore \/ MCSetZero \/ MCPush \/ MCFree
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
\* one implementation test per transition of the state graph (shortest prefix to it)
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
===============================================================================
