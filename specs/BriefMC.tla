-------------------------------- MODULE BriefMC --------------------------------
(* Histories of two extractors, a stream and a map over tiny descriptors: a      *)
(* table that goes through a stream comes back, equal seeds mean equal tables,    *)
(* and nearest-neighbour search is what it says.  The table a seed gives is an    *)
(* arbitrary fixed choice, made when the seed is first used.                      *)
EXTENDS Brief, Json
CONSTANTS Seeds, Radii, Tables, MaxLen, Emit
VARIABLES hist
vars == <<ext, known, file, map, hist>>
view == <<bvars, Len(hist)>>
\* one-octet tables, all eight pairs alike
Pairs == <<<<0, 0, 3, 0>>, <<0 - 1, 0, 2, 1>>, <<0, 1, 0, 0 - 2>>>>
Table(t) == [i \in 1..8 |-> Pairs[t]]
MCInit == Init /\ hist = <<>>
H(op) == hist' = Append(hist, op)
Fits(r, t) == TableOK(1, r, Table(t))
MCMake == \E x \in Exts, r \in Radii, s \in Seeds, t \in Tables :
            Fits(r, t) /\ Make(x, 1, r, s, Table(t)) /\ H(<<"new", x, r, s>>)
MCReseed == \E x \in Exts, s \in Seeds, t \in Tables :
            ext[x].n > 0 /\ Fits(ext[x].r, t) /\ Reseed(x, s, Table(t)) /\ H(<<"seed", x, s>>)
MCResize == \E x \in Exts, r \in Radii, t \in Tables :
            ext[x].n > 0 /\ Fits(r, t) /\ Resize(x, 1, r, Table(t)) /\ H(<<"resize", x, r>>)
MCLevel == \E x \in Exts : ext[x].n > 0 /\ ext[x].lo # 1 /\ SetLevel(x, 1) /\ H(<<"level", x>>)
MCSave == \E x \in Exts : ext[x].n > 0 /\ Len(file.recs) < 2 /\ file.pos = 0 /\ Save(x) /\ H(<<"save", x>>)
MCLoad == \E x \in Exts : \E ok \in BOOLEAN : Load(x, ok) /\ H(<<"load", x>>)
MCCut == Len(file.recs) > file.pos /\ Cut /\ H(<<"cut">>)
MCFree == \E x \in Exts : ext[x].n > 0 /\ Free(x) /\ H(<<"free", x>>)
MCNext == Len(hist) < MaxLen /\ (MCMake \/ MCReseed \/ MCResize \/ MCLevel \/ MCSave \/ MCLoad \/ MCCut \/ MCFree)
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ Len(hist') = MaxLen) => PrintT("CASE" \o ToJson(hist'))
SeedDecides == \A a, b \in known : (a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]) => a[4] = b[4]
Tabled == \A x \in Exts : ext[x].n > 0 => TableOK(ext[x].n, ext[x].r, ext[x].off)
ReadAtMost == file.pos <= Len(file.recs)
\* what was read is a record that was written
ReadBack == [][file'.pos > file.pos => \E x \in Exts : ext'[x] = file.recs[file'.pos]]_vars
===============================================================================
