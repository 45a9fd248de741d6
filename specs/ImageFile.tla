------------------------------ MODULE ImageFile ------------------------------
(* Image files.  A file is a name and a content.  PNM contents are the bytes   *)
(* themselves and are read by the grammar below; a PNG or JPEG content is what *)
(* was encoded, with a mark when some of its bytes are missing or altered.     *)
(* The images are byte images: w, h, type (0 gray, 1 color with alpha) and px. *)
EXTENDS ImageOps, TLC
CONSTANTS Names
VARIABLES files, img
fvars == <<files, img>>
\* content kinds: none, bytes (b), png (w h ct px broken), jpg (w h type px broken)
NoFile == [k |-> "none"]
NoImg == [ok |-> FALSE]
Image0(w, h, t, px) == [ok |-> TRUE, w |-> w, h |-> h, type |-> t, px |-> px]
AsIs == 0   AsGray == 1   AsRgba == 2

-------------------------------------------------------------------------------
(* binary PNM: magic, then width, height and maximum, each after any whitespace *)
(* and comments, one whitespace, the samples                                    *)
Space(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
Byte(b, i) == IF i <= Len(b) THEN b[i] ELSE 0 - 1
RECURSIVE EndLine(_, _)
EndLine(b, i) == IF Byte(b, i) \in {10, 0 - 1} THEN i ELSE EndLine(b, i + 1)
RECURSIVE Skip(_, _)
Skip(b, i) == IF Space(Byte(b, i)) THEN Skip(b, i + 1)
              ELSE IF Byte(b, i) = 35 THEN Skip(b, EndLine(b, i + 1) + 1) ELSE i
RECURSIVE Num(_, _, _)
Num(b, i, v) == IF Digit(Byte(b, i)) THEN Num(b, i + 1, 10 * v + (b[i] - 48)) ELSE [v |-> v, i |-> i]
Bad == [ok |-> FALSE]
Number(b, i) == LET j == Skip(b, i)
                IN IF Digit(Byte(b, j)) THEN [ok |-> TRUE] @@ Num(b, j, 0) ELSE Bad
Channels(m) == IF m = 53 THEN 1 ELSE 3
ParsePnm(b) ==
    IF Len(b) < 4 \/ Byte(b, 1) # 80 \/ Byte(b, 2) \notin {53, 54} THEN Bad
    ELSE LET w == Number(b, 3)
         IN IF ~w.ok THEN Bad
    ELSE LET h == Number(b, w.i)
         IN IF ~h.ok THEN Bad
    ELSE LET m == Number(b, h.i)
         IN IF ~m.ok THEN Bad
    ELSE IF m.v < 1 \/ m.v > 255 \/ ~Space(Byte(b, m.i)) THEN Bad
    ELSE IF w.v > 0 /\ h.v > 0 /\ w.v > Len(b) \div h.v THEN Bad       \* more pixels than bytes
    ELSE LET n == w.v * h.v * Channels(b[2])
             at == m.i + 1
         IN IF Len(b) - at + 1 < n THEN Bad
            ELSE [ok |-> TRUE, w |-> w.v, h |-> h.v, ch |-> Channels(b[2]), px |-> SubSeq(b, at, at + n - 1)]

(* what loading decoded samples (ch = 1 gray, 2 gray+alpha, 3 rgb, 4 rgba) in a  *)
(* mode must give                                                               *)
TypeFor(ch, mode) == IF mode = AsGray THEN 0 ELSE IF mode = AsRgba THEN 1 ELSE IF ch <= 2 THEN 0 ELSE 1
\* exact: the library's own gray rule; otherwise the codec's, within one level
GrayOK(v, r, g, b, exact) == IF exact THEN TruncOK(v, (30 * r) + (59 * g) + (11 * b), 100)
                             ELSE Abs((100 * v) - ((30 * r) + (59 * g) + (11 * b))) <= 150
\* loading in gray never fetches alpha; in color alpha is the file's, or opaque
SamplesOK(ch, px, mode, res, exact, keepalpha) ==
    LET n == Len(px) \div ch
        S(p, c) == px[(p - 1) * ch + c]
    IN IF TypeFor(ch, mode) = 0
       THEN Len(res) = n /\ \A p \in 1..n : IF ch <= 2 THEN res[p] = S(p, 1) ELSE GrayOK(res[p], S(p, 1), S(p, 2), S(p, 3), exact)
       ELSE Len(res) = 4 * n /\ \A p \in 1..n :
              /\ \A c \in 1..3 : res[4 * (p - 1) + c] = S(p, IF ch <= 2 THEN 1 ELSE c)
              /\ res[4 * p] = IF ch = 4 /\ keepalpha THEN S(p, 4) ELSE 255

-------------------------------------------------------------------------------
(* names *)
RECURSIVE LastDot(_, _)
LastDot(n, i) == IF i = 0 THEN 0 ELSE IF n[i] = 46 THEN i ELSE LastDot(n, i - 1)
Ext(n) == LET d == LastDot(n, Len(n)) IN IF d = 0 THEN <<>> ELSE SubSeq(n, d, Len(n))
PnmExts == {<<46, 112, 103, 109>>, <<46, 112, 112, 109>>, <<46, 80, 71, 77>>, <<46, 80, 80, 77>>}
JpgExts == {<<46, 106, 112, 103>>, <<46, 106, 112, 101, 103>>, <<46, 74, 80, 71>>, <<46, 74, 80, 69, 71>>}
PngExts == {<<46, 112, 110, 103>>, <<46, 80, 78, 71>>}
FmtOfName(n) == LET e == Ext(n) IN IF e \in PnmExts THEN "pnm" ELSE IF e \in JpgExts THEN "jpg"
                                   ELSE IF e \in PngExts THEN "png" ELSE "unknown"
\* by content: head = the first four bytes (fewer: nothing is recognised)
FmtOfHead(h) == IF Len(h) < 4 THEN "unknown"
                ELSE IF h[1] = 80 /\ h[2] \in 52..54 THEN "pnm"
                ELSE IF h[1] = 80 /\ h[2] \in 49..51 THEN "ascii"
                ELSE IF h[1] = 255 /\ h[2] = 216 THEN "jpg"
                ELSE IF SubSeq(h, 1, 4) = <<137, 80, 78, 71>> THEN "png" ELSE "unknown"

-------------------------------------------------------------------------------
(* saving: how = the format asked for ("auto": by name, PNM when unknown) *)
SaveFmt(name, how) == IF how # "auto" THEN how
                      ELSE LET f == FmtOfName(name) IN IF f = "unknown" THEN "pnm" ELSE f
DropAlpha(px) == [i \in 1..((Len(px) \div 4) * 3) |-> px[((i - 1) \div 3) * 4 + ((i - 1) % 3) + 1]]
\* bytes: what the saved file holds (looked at for PNM only)
SavedPnm(x, bytes) == LET q == ParsePnm(bytes)
                      IN IF ~q.ok THEN FALSE
                         ELSE /\ q.w = x.w /\ q.h = x.h /\ q.ch = (IF x.type = 0 THEN 1 ELSE 3)
                              /\ q.px = (IF x.type = 0 THEN x.px ELSE DropAlpha(x.px))
Save(f, name, how, bytes) ==
    /\ img.ok
    /\ LET fmt == SaveFmt(name, how)
       IN IF fmt = "pnm" THEN /\ SavedPnm(img, bytes) = TRUE
                              /\ files' = [files EXCEPT ![f] = [k |-> "bytes", b |-> bytes]]
          ELSE /\ img.w > 0 /\ img.h > 0
               /\ files' = [files EXCEPT ![f] = [k |-> fmt, w |-> img.w, h |-> img.h, ch |-> NCh(img.type), px |-> img.px, broken |-> FALSE]]
    /\ UNCHANGED img
(* somebody else's files *)
Put(f, bytes) == files' = [files EXCEPT ![f] = [k |-> "bytes", b |-> bytes]] /\ UNCHANGED img
PutPng(f, w, h, ch, px) ==
    files' = [files EXCEPT ![f] = [k |-> "png", w |-> w, h |-> h, ch |-> ch, px |-> px, broken |-> FALSE]] /\ UNCHANGED img
(* cut to the first n of its bytes / one byte altered *)
Cut(f, n, size) ==
    /\ LET c == files[f] IN
       files' = [files EXCEPT ![f] = IF c.k = "bytes" THEN [c EXCEPT !.b = SubSeq(c.b, 1, Min(n, Len(c.b)))]
                                     ELSE IF c.k \in {"png", "jpg"} /\ n < size THEN [c EXCEPT !.broken = TRUE] ELSE c]
    /\ UNCHANGED img
Flip(f) == files[f].k = "png" /\ files' = [files EXCEPT ![f].broken = TRUE] /\ UNCHANGED img
Remove(f) == files' = [files EXCEPT ![f] = NoFile] /\ UNCHANGED img
Store(w, h, t, px) == img' = Image0(w, h, t, px) /\ UNCHANGED files

(* what a load can give: the set of outcomes is described by a test *)
NearSame(a, b, t) == Abs(a - b) <= t
JpgSlack == 800
JpgOK(c, mode, r) ==
    /\ r.w = c.w /\ r.h = c.h /\ r.type = TypeFor(c.ch, mode)
    /\ Len(r.px) = c.w * c.h * NCh(r.type)
    /\ r.type = 1 => \A p \in 1..(c.w * c.h) : r.px[4 * p] = 255
    \* gray survives within a few levels; color when it does not vary
    /\ (c.ch = 1) => IF r.type = 0 THEN \A p \in 1..Len(c.px) : NearSame(r.px[p], c.px[p], 6)
                     ELSE \A p \in 1..Len(c.px), q \in 1..3 : NearSame(r.px[4 * (p - 1) + q], c.px[p], 6)
    /\ (c.ch = 4 /\ r.type = 1 /\ \A p \in 1..(c.w * c.h), q \in 1..3 : c.px[4 * (p - 1) + q] = c.px[q])
          => \A p \in 1..(c.w * c.h), q \in 1..3 : NearSame(r.px[4 * (p - 1) + q], c.px[q], 8)
    \* the brightness of a color survives too
    /\ (c.ch = 4 /\ r.type = 0) => \A p \in 1..(c.w * c.h) :
          LET o == 4 * (p - 1) IN Abs((100 * r.px[p]) - ((30 * c.px[o + 1]) + (59 * c.px[o + 2]) + (11 * c.px[o + 3]))) <= JpgSlack
LoadOK(c, mode, r) ==
    CASE c.k = "bytes" -> LET q == ParsePnm(c.b)
                          IN IF ~q.ok THEN FALSE
                             ELSE r.w = q.w /\ r.h = q.h /\ r.type = TypeFor(q.ch, mode) /\ SamplesOK(q.ch, q.px, mode, r.px, TRUE, FALSE)
      [] c.k = "png"   -> ~c.broken /\ r.w = c.w /\ r.h = c.h /\ r.type = TypeFor(c.ch, mode)
                          /\ SamplesOK(c.ch, c.px, mode, r.px, FALSE, TRUE)
      [] c.k = "jpg"   -> c.broken \/ JpgOK(c, mode, r)
      [] OTHER -> FALSE
MayFail(c, how) ==
    CASE c.k = "bytes" -> how \in {"png", "jpg"} \/ ~ParsePnm(c.b).ok
      [] c.k = "png"   -> how \in {"pnm", "jpg"} \/ c.broken
      [] c.k = "jpg"   -> how \in {"pnm", "png"} \/ c.broken
      [] OTHER -> TRUE
\* r: the image after a load that reported success
LoadGood(f, mode, how, r) ==
    /\ how = "auto" \/ (how = "pnm" /\ files[f].k = "bytes") \/ how = files[f].k
    /\ LoadOK(files[f], mode, r) = TRUE
    /\ img' = [ok |-> TRUE] @@ r /\ UNCHANGED files
\* a load that reported failure: the image it was given holds nothing any more
LoadBad(f, how) == MayFail(files[f], how) = TRUE /\ img' = NoImg /\ UNCHANGED files
\* nothing can be written to a full device: saving reports failure
SaveFull == img.ok /\ UNCHANGED fvars

Init == files = [f \in Names |-> NoFile] /\ img = NoImg
==============================================================================
