-------------------------------- MODULE ShaMC --------------------------------
(* How a list of buffers is cut into blocks: a cursor walks the buffers, full  *)
(* blocks are absorbed while there is a block's worth of message left, then    *)
(* the padding goes into one or two last blocks.  Checked for every list of    *)
(* buffers within the bounds against the padding rule on the concatenation.    *)
(* B and F scale down the block size (64) and length field (8).                *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS B, F, MaxChunk, MaxChunks, Emit
VARIABLES chunks, cur, off, blocks, left, phase, buf
vars == <<chunks, cur, off, blocks, left, phase, buf>>

Lists == UNION {[1..n -> 0..MaxChunk] : n \in 1..MaxChunks}
\* byte j of chunk i is the pair <<i, j>>; padding marks are 1 (the bit), 0 and <<total>>
Content(ls) == FlattenSeq([i \in 1..Len(ls) |-> [j \in 1..ls[i] |-> <<i, j>>]])
Total(ls) == Len(Content(ls))
PadRule(ls) == LET n == Total(ls)
                   z == (2 * B - F - 1 - (n % B)) % B
               IN Content(ls) \o << <<"one">> >> \o [i \in 1..z |-> <<"zero">>] \o [i \in 1..F |-> <<"len", n>>]

Init == /\ chunks \in Lists /\ cur = 1 /\ off = 0 /\ blocks = <<>> /\ buf = <<>>
        /\ left = Total(chunks) /\ phase = "blocks"
\* gather bytes from the current buffer into the block being filled
Want == IF phase = "blocks" THEN B ELSE left
Gather == /\ phase \in {"blocks", "tail"} /\ Len(buf) < Want /\ cur <= Len(chunks)
          /\ (phase = "blocks" => left >= B)
          /\ LET have == chunks[cur] - off
                 need == Want - Len(buf)
                 k == IF have > need THEN need ELSE have
             IN /\ buf' = buf \o [j \in 1..k |-> <<cur, off + j>>]
                /\ IF have > need THEN off' = off + k /\ cur' = cur ELSE off' = 0 /\ cur' = cur + 1
          /\ UNCHANGED <<chunks, blocks, left, phase>>
Absorb == /\ phase = "blocks" /\ Len(buf) = B
          /\ blocks' = Append(blocks, buf) /\ buf' = <<>> /\ left' = left - B
          /\ UNCHANGED <<chunks, cur, off, phase>>
Tail0 == /\ phase = "blocks" /\ left < B /\ buf = <<>>
         /\ phase' = "tail" /\ UNCHANGED <<chunks, cur, off, blocks, left, buf>>
Zeros(n) == [i \in 1..n |-> <<"zero">>]
LenField == [i \in 1..F |-> <<"len", Total(chunks)>>]
FinishOne == /\ phase = "tail" /\ Len(buf) = left /\ left <= B - F - 1
             /\ blocks' = Append(blocks, buf \o << <<"one">> >> \o Zeros(B - F - 1 - left) \o LenField)
             /\ phase' = "done" /\ UNCHANGED <<chunks, cur, off, left, buf>>
FinishTwo == /\ phase = "tail" /\ Len(buf) = left /\ left > B - F - 1
             /\ blocks' = blocks \o << buf \o << <<"one">> >> \o Zeros(B - left - 1), Zeros(B - F) \o LenField >>
             /\ phase' = "done" /\ UNCHANGED <<chunks, cur, off, left, buf>>
Next == Gather \/ Absorb \/ Tail0 \/ FinishOne \/ FinishTwo
Spec == Init /\ [][Next]_vars
DoneOK == phase = "done" => /\ FlattenSeq(blocks) = PadRule(chunks)
                            /\ \A i \in 1..Len(blocks) : Len(blocks[i]) = B
CursorInside == cur <= Len(chunks) => off <= chunks[cur]
\* absorbed, gathered and still unread bytes are always the whole message
Conserved == phase # "done" =>
    FlattenSeq(blocks) \o buf \o SubSeq(Content(chunks), Len(FlattenSeq(blocks) \o buf) + 1, Total(chunks)) = Content(chunks)
EmitCase == (Emit /\ phase' = "done") => PrintT("CASE" \o ToJson(chunks))
===============================================================================
