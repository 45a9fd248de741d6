------------------------------- MODULE Device --------------------------------
(* Running out of room.  Files lie on a device that takes at most `cap` bytes   *)
(* per file; streams may hold back what they are given.  Whatever is lost on    *)
(* the way to the file is reported, by the writing call or at the latest by     *)
(* closing the stream; what fits is written completely and reported as written. *)
(* The same for memory: a request is met in full or refused.                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cap,          \* bytes a file can hold
          file,         \* bytes in the file
          stream,       \* the open stream: given so far, of which held back; whether it may hold back; whether bytes were lost and whether that was told
          blocks        \* memory in use: id -> size (0: not in use)
CONSTANT Ids
dvars == <<cap, file, stream>>
mvars == <<blocks>>
Min(a, b) == IF a < b THEN a ELSE b
Closed == [open |-> FALSE, given |-> 0, held |-> 0, buf |-> FALSE, lost |-> FALSE, told |-> FALSE]
DeviceInit == cap = 0 /\ file = 0 /\ stream = Closed /\ blocks = [i \in Ids |-> 0]
Limit(c) == ~stream.open /\ cap' = c /\ UNCHANGED <<file, stream, blocks>>
\* opening for writing empties the file
Open(b) == ~stream.open /\ stream' = [Closed EXCEPT !.open = TRUE, !.buf = b] /\ file' = 0 /\ UNCHANGED <<cap, blocks>>
\* k bytes of those at hand are passed on to the device, which takes what it can
Pass(s, k) == LET t == Min(k, cap - file) IN
    /\ file' = file + t
    /\ stream' = [s EXCEPT !.held = @ - k, !.lost = @ \/ (t < k)]
\* n more bytes; the call says whether they were taken, and may only say no when some were lost
Put(n, ok) ==
    /\ stream.open /\ UNCHANGED <<cap, blocks>>
    /\ LET s == [stream EXCEPT !.given = @ + n, !.held = @ + n]
       IN \E k \in (0..Min(s.held, cap - file)) \cup {s.held} :      \* what does not fit fails as a whole
            /\ ~stream.buf => k = s.held
            /\ Pass([s EXCEPT !.told = @ \/ ~ok], k)
            /\ ~stream'.lost => ok
            /\ (stream'.lost /\ ~stream.lost) => ~ok
            /\ (~stream.buf /\ n > 0 /\ stream'.lost) => ~ok
\* everything arrived, or the loss is reported (again, if it was before)
Close(ok) ==
    /\ stream.open /\ UNCHANGED <<cap, blocks>>
    /\ LET t == Min(stream.held, cap - file)
       IN file' = file + t /\ ok = (~stream.lost /\ t = stream.held)
    /\ stream' = Closed
\* how a function reports: "x" functions end fatally, the others return; "void" ones leave it to closing
Report(kind, ok) == IF ok THEN "ok" ELSE IF kind = "x" THEN "fatal" ELSE "refused"
\* a saver opens, writes n bytes and closes
Save(n, kind, out) ==
    /\ ~stream.open
    /\ out = Report(kind, n <= cap)
    /\ file' \in 0..cap /\ (n <= cap => file' = n)
    /\ UNCHANGED <<cap, stream, blocks>>
\* a writer of n bytes on a stream of the caller, which then closes it
Write(n, kind, buf, out, close) ==
    /\ ~stream.open
    /\ LET fits == n <= cap
       IN /\ out \in {"ok", Report(kind, FALSE)}
          /\ (kind = "void" \/ fits) => out = "ok"
          /\ (~fits /\ ~buf /\ kind # "void") => out # "ok"
          /\ close = fits                 \* the stream remembers
    /\ file' \in 0..cap /\ (n <= cap => file' = n)
    /\ UNCHANGED <<cap, stream, blocks>>
\* ---- memory: a size is k * 2^e
Huge(k, e) == k > 0 /\ (e >= 31 \/ (e >= 20 /\ k * (2 ^ (e - 20)) >= 2048))
Bytes(k, e) == IF k = 0 THEN 0 ELSE k * (2 ^ e)
\* a request for a new block, or for another size of an existing one
Request(id, k, e, kind, out) ==
    /\ out = Report(kind, ~Huge(k, e))
    /\ blocks' = IF Huge(k, e) THEN blocks ELSE [blocks EXCEPT ![id] = Bytes(k, e)]
    /\ UNCHANGED dvars
Release(id) == blocks' = [blocks EXCEPT ![id] = 0] /\ UNCHANGED dvars
\* ---- properties
Accounted == stream.open => (stream.lost \/ stream.given = file + stream.held)
Told == stream.open => (stream.told => stream.lost)
Bounded == file <= cap \/ ~stream.open
===============================================================================
