------------------------------ MODULE DatasetsMC ------------------------------
EXTENDS Datasets, Json
CONSTANTS MaxFiles, Emit
VARIABLE hist
mvars == <<dvars, hist>>
N(n, k) == [i \in 1..n |-> (i * k) % 97]
F(v) == [k |-> "num", v |-> v]
Options == {<<"sequences/03", Dir>>, <<"poses/03.txt", F(N(24, 5))>>, <<"poses/03.txt", F(N(12, 7))>>, <<"poses/03.txt", F(N(11, 7))>>,
            <<"sequences/03/times.txt", F(<<0, 4>>)>>, <<"sequences/03/times.txt", F(<<6>>)>>, <<"sequences/03/times.txt", F(<<>>)>>,
            <<"sequences/03/calib.txt", F(N(48, 3))>>, <<"sequences/03/calib.txt", F(N(40, 3))>>,
            <<"sequences/03/image_2", Dir>>, <<"sequences/03/velodyne", Dir>>, <<"sequences/21", Dir>>}
Parent(p) == IF p = "sequences/03/times.txt" \/ p = "sequences/03/calib.txt" \/ p = "sequences/03/image_2" \/ p = "sequences/03/velodyne" THEN "sequences/03" ELSE ""
MCPut == \E o \in Options : /\ o[1] \notin DOMAIN fs /\ (Parent(o[1]) = "" \/ IsDir(Parent(o[1]))) /\ Cardinality(DOMAIN fs) < MaxFiles
                            /\ Put(o[1], o[2]) /\ hist' = Append(hist, <<"put", o[1], o[2]>>)
MCRemove == \E p \in DOMAIN fs \ {"", "sequences/03", "sequences/21", "sequences/03/image_2", "sequences/03/velodyne"} : Len(hist) < MaxFiles + 1 /\ Remove(p) /\ hist' = Append(hist, <<"rm", p>>)
MCOpen == kitti # Available /\ KOpen /\ hist' = Append(hist, <<"kopen">>)
MCSeq == \E i \in {3, 21} : KSeqOK(i) /\ seq # KSeqVal(i) /\ KSeq(i) /\ hist' = Append(hist, <<"kseq", i>>)
MCBad == \E i \in {3, 21} : ~KSeqOK(i) /\ Len(hist) >= 4 /\ hist[Len(hist)][1] # "kseq" /\ UNCHANGED dvars /\ hist' = Append(hist, <<"kseq", i>>)
MCNext == Len(hist) < 2 * MaxFiles /\ (MCPut \/ MCRemove \/ MCOpen \/ MCSeq \/ MCBad)
MCSpec == DataInit /\ hist = <<>> /\ [][MCNext]_mvars
View == <<dvars, IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]>>
EmitCase == (Emit /\ hist' # <<>> /\ hist'[Len(hist')][1] = "kseq") => PrintT("CASE" \o ToJson(hist'))
===============================================================================
