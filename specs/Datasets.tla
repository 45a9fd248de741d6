-------------------------------- MODULE Datasets --------------------------------
(* Image sequence collections on disk.  fs maps the path of everything below the *)
(* collection's directory to what is there: [k |-> "dir"], [k |-> "num", v |->   *)
(* the numbers of a text file in quarters], [k |-> "words", v |-> its lines] or   *)
(* [k |-> "img", w, h, g |-> a uniformly gray picture].                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES fs, kitti, seq    \* disk; sequences seen when the collection was opened; open sequence
dvars == <<fs, kitti, seq>>
None == [k |-> "none"]
Dir == [k |-> "dir"]
At(p) == IF p \in DOMAIN fs THEN fs[p] ELSE None
IsDir(p) == At(p).k = "dir"
IsFile(p) == At(p).k \in {"num", "words", "img"}
MaxSeq == 22
Two(i) == (IF i < 10 THEN "0" ELSE "") \o ToString(i)
Pad(i, n) == LET d == IF i < 10 THEN 1 ELSE IF i < 100 THEN 2 ELSE IF i < 1000 THEN 3 ELSE 4
                 z == [k \in 0..6 |-> <<"", "0", "00", "000", "0000", "00000", "000000">>[k + 1]]
             IN z[n - d] \o ToString(i)
\* numbers stop at the first thing that is not one (Bad)
Bad == -99999
Nums(f) == IF f.k # "num" THEN <<>> ELSE
           LET s == {i \in 1..Len(f.v) : f.v[i] = Bad} IN
           IF s = {} THEN f.v ELSE SubSeq(f.v, 1, (CHOOSE i \in s : \A j \in s : i <= j) - 1)
\* row-wise 3 by 4 (or 3 by 3) numbers to column order
ByColumn(v, rows, cols) == [k \in 1..(rows * cols) |-> v[(((k - 1) % rows) * cols) + ((k - 1) \div rows) + 1]]
Group(v, i, n) == SubSeq(v, (n * (i - 1)) + 1, n * i)
\* ---- environment
Put(p, f) == fs' = (p :> f) @@ fs /\ UNCHANGED <<kitti, seq>>
Remove(p) == p \in DOMAIN fs /\ fs' = [q \in DOMAIN fs \ {p} |-> fs[q]] /\ UNCHANGED <<kitti, seq>>
EnsureOK(p, parent) == IsDir(p) \/ (At(p).k = "none" /\ (parent = "" \/ IsDir(parent)))
Ensure(p) == fs' = (p :> Dir) @@ fs /\ UNCHANGED <<kitti, seq>>
\* ---- KITTI odometry
SeqDir(i) == "sequences/" \o Two(i)
Available == {i \in 0..(MaxSeq - 1) : IsDir(SeqDir(i))}
KOpen == kitti' = Available /\ UNCHANGED <<fs, seq>>
PoseFile(i) == At("poses/" \o Two(i) \o ".txt")
TimesFile(i) == At(SeqDir(i) \o "/times.txt")
CalibFile(i) == At(SeqDir(i) \o "/calib.txt")
GT(i) == PoseFile(i).k = "num"
Poses(i) == LET v == Nums(PoseFile(i)) IN [j \in 1..(Len(v) \div 12) |-> ByColumn(Group(v, j, 12), 3, 4)]
Times(i) == Nums(TimesFile(i))
KSeqOK(i) == /\ i \in kitti /\ TimesFile(i).k = "num" /\ CalibFile(i).k = "num" /\ Len(Nums(CalibFile(i))) >= 48
             /\ (GT(i) => Len(Poses(i)) = Len(Times(i)))
KSeqVal(i) == [kind |-> "kitti", id |-> i, gt |-> GT(i), poses |-> IF GT(i) THEN Poses(i) ELSE <<>>, times |-> Times(i),
               calib |-> [c \in 1..4 |-> ByColumn(Group(Nums(CalibFile(i)), c, 12), 3, 4)],
               cams |-> [c \in 1..4 |-> IsDir(SeqDir(i) \o "/image_" \o ToString(c - 1))], lidar |-> IsDir(SeqDir(i) \o "/velodyne")]
KSeq(i) == seq' = KSeqVal(i) /\ UNCHANGED <<fs, kitti>>
KFrame(c, f) == SeqDir(seq.id) \o "/image_" \o ToString(c) \o "/" \o Pad(f, 6) \o ".png"
KFrameOK(c, f) == seq.cams[c + 1] /\ At(KFrame(c, f)).k = "img"
\* ---- VGG affine
VGGNames == {"bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"}
HFile(n, i) == At(n \o "/H1to" \o ToString(i) \o "p")
VSeqOK(n) == n \in VGGNames /\ IsDir(n) /\ \A i \in 2..6 : Len(Nums(HFile(n, i))) >= 9
Eye == <<4, 0, 0, 0, 4, 0, 0, 0, 4>>
VSeqVal(n) == [kind |-> "vgg", name |-> n, h |-> [i \in 1..6 |-> IF i = 1 THEN Eye ELSE ByColumn(Nums(HFile(n, i)), 3, 3)]]
VSeq(n) == seq' = VSeqVal(n) /\ UNCHANGED <<fs, kitti>>
VFrame(f) == LET p == seq.name \o "/img" \o ToString(f + 1) IN IF At(p \o ".ppm").k = "img" THEN p \o ".ppm" ELSE p \o ".pgm"
\* ---- Temple Color 128
Attributes == <<"VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR">>
Pow2(i) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>[i]
RECURSIVE AttrSum(_, _)
AttrSum(S, i) == IF i = 0 THEN 0 ELSE (IF Attributes[i] \in S THEN Pow2(i) ELSE 0) + AttrSum(S, i - 1)
AttrWord(f) == AttrSum({f.v[i] : i \in 1..Len(f.v)}, 11)
TFile(n, s) == At(n \o "/" \o n \o "_" \o s \o ".txt")
TRange(n) == Nums(TFile(n, "frames"))
TLength(n) == ((TRange(n)[2] - TRange(n)[1]) \div 4) + 1
TSeqOK(n, known) == /\ n \in known /\ IsDir(n) /\ Len(TRange(n)) >= 2 /\ TFile(n, "att").k = "words"
                    /\ TFile(n, "gt").k = "num" /\ Len(Nums(TFile(n, "gt"))) >= 4 * TLength(n)
TSeqVal(n) == [kind |-> "temple", name |-> n, start |-> TRange(n)[1] \div 4, end |-> TRange(n)[2] \div 4, len |-> TLength(n),
               attr |-> AttrWord(TFile(n, "att")), gt |-> [i \in 1..TLength(n) |-> Group(Nums(TFile(n, "gt")), i, 4)]]
TSeq(n) == seq' = TSeqVal(n) /\ UNCHANGED <<fs, kitti>>
TFrame(f) == seq.name \o "/img/" \o Pad(f, 4) \o ".jpg"
NoSeq == [kind |-> "none"]
DataInit == fs = ("" :> Dir) /\ kitti = {} /\ seq = NoSeq
\* ---- properties
Whole == seq.kind = "kitti" => (seq.gt => Len(seq.poses) = Len(seq.times)) /\ \A i \in 1..Len(seq.poses) : Len(seq.poses[i]) = 12
Transposed == seq.kind = "kitti" => \A i \in 1..Len(seq.poses) : ByColumn(ByColumn(seq.poses[i], 3, 4), 4, 3) = seq.poses[i]
Known == \A i \in kitti : i \in 0..(MaxSeq - 1)
Lengths == seq.kind = "temple" => Len(seq.gt) = seq.len /\ seq.len = seq.end - seq.start + 1
\* what is open does not depend on later changes of the disk
Stable == [][fs' # fs => UNCHANGED <<kitti, seq>>]_dvars
=================================================================================
