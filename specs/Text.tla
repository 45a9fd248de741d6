--------------------------------- MODULE Text ---------------------------------
(* Text and record encodings.  A character is its code; a stream is a sequence *)
(* of bytes with a reading position.                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT FATAL
VARIABLES data, pos          \* what a stream holds, how far it has been read
strvars == <<data, pos>>

Esc == 92  Quote == 34  Newline == 10
Pairs == {<<10, 110>>, <<13, 114>>, <<9, 116>>, <<8, 98>>, <<12, 102>>, <<34, 34>>, <<92, 92>>}
\* ---- readable form: quoted, control characters as escapes
EncOf(c) == IF \E p \in Pairs : p[1] = c THEN <<Esc, (CHOOSE p \in Pairs : p[1] = c)[2]>> ELSE <<c>>
RECURSIVE EncAll(_)
EncAll(s) == IF s = <<>> THEN <<>> ELSE EncOf(Head(s)) \o EncAll(Tail(s))
Readable(s) == <<Quote>> \o EncAll(s) \o <<Quote>>
\* decoding works on the text between the quotes; a slash may be escaped too
RECURSIVE Unreadable(_)
Unreadable(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF Head(t) # Esc
         THEN LET r == Unreadable(Tail(t)) IN IF r = FATAL THEN FATAL ELSE <<Head(t)>> \o r
         ELSE IF Len(t) < 2 THEN FATAL
              ELSE LET c == t[2]
                       r == Unreadable(SubSeq(t, 3, Len(t)))
                   IN IF r = FATAL THEN FATAL
                      ELSE IF c = 47 THEN <<47>> \o r
                      ELSE IF \E p \in Pairs : p[2] = c THEN <<(CHOOSE p \in Pairs : p[2] = c)[1]>> \o r ELSE FATAL
\* ---- double quoted form
RECURSIVE DubAll(_)
DubAll(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = Quote THEN <<Quote, Quote>> ELSE <<Head(s)>>) \o DubAll(Tail(s))
DoubleQuoted(s) == <<Quote>> \o DubAll(s) \o <<Quote>>
RECURSIVE Undub(_)
Undub(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF Head(t) # Quote
         THEN LET r == Undub(Tail(t)) IN IF r = FATAL THEN FATAL ELSE <<Head(t)>> \o r
         ELSE IF Len(t) < 2 \/ t[2] # Quote THEN FATAL
              ELSE LET r == Undub(SubSeq(t, 3, Len(t))) IN IF r = FATAL THEN FATAL ELSE <<Quote>> \o r
Inner(t) == SubSeq(t, 2, Len(t) - 1)
\* ---- hexadecimal digests
Digit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN <<>> ELSE <<Digit(Head(b) \div 16), Digit(Head(b) % 16)>> \o Hex(Tail(b))
\* ---- gathering from several pieces: p is the piece (from 0), o the offset in it
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
RestOf(ps, p, o) == IF p >= Len(ps) THEN <<>> ELSE SubSeq(ps[p + 1], o + 1, Len(ps[p + 1])) \o Flat(SubSeq(ps, p + 2, Len(ps)))
\* ---- streams
StreamInit == data = <<>> /\ pos = 0
Rest == SubSeq(data, pos + 1, Len(data))
Put(b) == data' = data \o b /\ UNCHANGED pos
Rewind == pos' = 0 /\ UNCHANGED data
Cut(n) == data' = SubSeq(data, 1, n) /\ pos' = 0
Length8(n) == [i \in 1..8 |-> IF i = 1 THEN n % 256 ELSE IF i = 2 THEN n \div 256 ELSE 0]
Record(s) == Length8(Len(s)) \o s
\* the length a record header announces; -1 when it is more than any stream here holds
Announced(h) == IF \E i \in 3..8 : h[i] # 0 THEN -1 ELSE h[1] + (256 * h[2])
GoodRecord == Len(Rest) >= 8 /\ LET n == Announced(SubSeq(Rest, 1, 8)) IN n >= 0 /\ Len(Rest) >= 8 + n
RecordText == SubSeq(Rest, 9, 8 + Announced(SubSeq(Rest, 1, 8)))
\* what the receiver of a record sees: a string ends at its first zero byte
AsString(t) == LET z == {i \in 1..Len(t) : t[i] = 0} IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
ReadRecord == GoodRecord /\ pos' = pos + 8 + Len(RecordText) /\ UNCHANGED data
\* ---- lines
HasLine == Rest # <<>>
LineOf == LET nl == {i \in 1..Len(Rest) : Rest[i] = Newline}
          IN IF nl = {} THEN Rest ELSE SubSeq(Rest, 1, CHOOSE i \in nl : \A j \in nl : i <= j)
ReadLine == HasLine /\ pos' = pos + Len(LineOf) /\ UNCHANGED data
\* ---- properties
StreamInv == pos >= 0 /\ pos <= Len(data)
RoundTrip(s) == /\ Unreadable(Inner(Readable(s))) = s /\ Undub(Inner(DoubleQuoted(s))) = s
                \* nothing in a readable form breaks a line or ends the quoted text early
                /\ \A i \in 1..Len(Readable(s)) : Readable(s)[i] \notin {8, 9, 10, 12, 13}
===============================================================================
