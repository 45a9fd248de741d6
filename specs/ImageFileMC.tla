----------------------------- MODULE ImageFileMC -----------------------------
(* Histories of saving, cutting and loading, and every header spelling within  *)
(* the bounds.                                                                 *)
EXTENDS ImageFile, TLC, Json
CONSTANTS Imgs, Seps, Heads, Ends, Tails, MaxDepth, Emit, UseHeads, Cuts
VARIABLE hist
vars == <<files, img, hist>>
view == <<files, img>>
Log(r) == hist' = Append(hist, r)
Text(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
           ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Spelling(x) == <<80, IF x.type = 0 THEN 53 ELSE 54, 10>> \o Text(x.w) \o <<32>> \o Text(x.h) \o <<10, 50, 53, 53, 10>>
               \o (IF x.type = 0 THEN x.px ELSE DropAlpha(x.px))
ImgsQ == {[w |-> 1, h |-> 2, type |-> 0, px |-> <<10, 35>>], [w |-> 2, h |-> 1, type |-> 1, px |-> <<1, 2, 3, 4, 255, 0, 9, 200>>],
          [w |-> 0, h |-> 0, type |-> 0, px |-> <<>>]}
SepsQ == {<<32>>, <<10, 35, 49, 32, 10>>}
SepsM == {<<32>>, <<10, 35, 49, 32, 10>>, <<9, 13>>}
SepsT == {<<32>>, <<10, 35, 49, 32, 10>>, <<9, 13>>, <<35, 10, 35, 57, 10>>, <<>>, <<35, 49>>}
HeadsQ == {<<1, 1, 255>>, <<2, 1, 255>>, <<1, 2, 1>>, <<1, 1, 0>>, <<1, 1, 256>>, <<0, 1, 255>>}
EndsQ == {<<10>>, <<32>>, <<>>, <<65>>}
TailsQ == {<<>>, <<35>>, <<10, 57>>, <<50, 10, 35, 9>>, <<1, 2, 3, 4, 5, 6, 7>>}

MCInit == Init /\ hist = <<>>
MCStore == \E x \in Imgs : img = NoImg /\ hist = <<>> /\ Store(x.w, x.h, x.type, x.px) /\ Log([op |-> "store"] @@ x)
MCSave == \E f \in Names : img.ok /\ files[f].k = "none" /\ Save(f, <<97>>, "pnm", Spelling(img)) /\ Log([op |-> "save", f |-> f, how |-> "pnm"])
MCSavePng == \E f \in Names : img.ok /\ files[f].k = "none" /\ Save(f, <<97>>, "png", <<>>) /\ Log([op |-> "save", f |-> f, how |-> "png"])
MCPut == UseHeads /\ img = NoImg /\ \E f \in Names, m \in {53, 54}, hd \in Heads, s1 \in Seps, s2 \in Seps, s3 \in Seps, e \in Ends, t \in Tails :
    LET b == <<80, m>> \o s1 \o Text(hd[1]) \o s2 \o Text(hd[2]) \o s3 \o Text(hd[3]) \o e \o t
    IN files[f].k = "none" /\ Put(f, b) /\ Log([op |-> "put", f |-> f, b |-> b])
MCCut == \E f \in Names, n \in Cuts : files[f].k # "none" /\ ~(\E i \in 1..Len(hist) : hist[i].op = "cut")
    /\ Cut(f, n, 100) /\ Log([op |-> "cut", f |-> f, n |-> n])
\* the result an exact decoder gives
Decode(c, mode) ==
    LET q == IF c.k = "bytes" THEN ParsePnm(c.b) ELSE c
        n == q.w * q.h
        t == TypeFor(q.ch, mode)
        S(p, k) == q.px[((p - 1) * q.ch) + k]
    IN [w |-> q.w, h |-> q.h, type |-> t,
        px |-> [i \in 1..(n * NCh(t)) |->
            IF t = 0 THEN (IF q.ch <= 2 THEN S(i, 1) ELSE ((30 * S(i, 1)) + (59 * S(i, 2)) + (11 * S(i, 3))) \div 100)
            ELSE IF i % 4 = 0 THEN (IF q.ch = 4 THEN S(i \div 4, 4) ELSE 255)
            ELSE S(((i - 1) \div 4) + 1, IF q.ch <= 2 THEN 1 ELSE i % 4)]]
Loadable(c) == CASE c.k = "bytes" -> ParsePnm(c.b).ok [] c.k = "png" -> ~c.broken [] OTHER -> FALSE
MCLoadGood == \E f \in Names, mode \in 0..2 : Loadable(files[f])
    /\ LoadGood(f, mode, "auto", Decode(files[f], mode)) /\ Log([op |-> "load", f |-> f, mode |-> mode])
MCLoadBad == \E f \in Names : LoadBad(f, "auto") /\ Log([op |-> "load", f |-> f, mode |-> 0])
MCNext == MCStore \/ MCSave \/ MCSavePng \/ MCPut \/ MCCut \/ MCLoadGood \/ MCLoadBad
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == (Emit /\ hist'[Len(hist')].op = "load") => PrintT("CASE" \o ToJson(hist'))

\* saving then loading as it is gives the image back (alpha is opaque after PNM)
Opaque(x) == [x EXCEPT !.px = [i \in 1..Len(x.px) |-> IF x.type = 1 /\ i % 4 = 0 THEN 255 ELSE x.px[i]]]
RoundTrip == \A x \in Imgs : LET r == Decode([k |-> "bytes", b |-> Spelling(x)], AsIs) IN r = Opaque(x)
\* no strict prefix of a file with pixels loads
PrefixFails == \A x \in Imgs : x.w * x.h > 0 =>
    \A n \in 0..(Len(Spelling(x)) - 1) : ~ParsePnm(SubSeq(Spelling(x), 1, n)).ok
\* a load either must succeed or must fail, never both
Decided == \A f \in Names : files[f].k # "none" => (Loadable(files[f]) = ~MayFail(files[f], "auto"))
\* what is loaded depends on the content only: appended bytes change nothing
TailIgnored == \A f \in Names : files[f].k = "bytes" =>
    (ParsePnm(files[f].b).ok => ParsePnm(files[f].b \o <<7>>) = ParsePnm(files[f].b))
==============================================================================
