------------------------------ MODULE PyramidMC ------------------------------
(* How a build proceeds: level by level, each from the one before, with the     *)
(* sizes announced first.  Checked: the size a level gets by repeated halving   *)
(* (or scaling) is the one announced, the blur recurrence is consistent, and    *)
(* the outcome does not depend on what the pyramid and the builder held.        *)
EXTENDS Pyramid, Json
CONSTANTS Ns, Steps, Factors, Ws, MaxBuilds, Emit
VARIABLES phase, at, lvl, input, builds, hist
vars == <<cfgs, pyrs, phase, at, lvl, input, builds, hist>>
view == <<cfgs, phase, at, lvl, input, builds>>
b0 == 1
FactorsQ == {<<3, 2>>, <<2, 1>>, <<5, 4>>}
Configs == {Fast(n, s) : n \in Ns, s \in {512, 1024}} \cup {Fine(o, st, 820) : o \in Ns, st \in Steps}
           \cup {Scaled(n, f[1], f[2], 700) : n \in {m \in Ns : m <= 3}, f \in Factors}
MCInit == /\ cfgs = [b \in {b0} |-> NoCfg] /\ pyrs = [p \in {1} |-> NoPyr] /\ phase = "idle" /\ at = 0
          /\ lvl = <<>> /\ input = <<0, 0>> /\ builds = 0 /\ hist = <<>>
MCConfigure == /\ phase = "idle" /\ \E c \in Configs : Configure(b0, c) /\ hist' = Append(hist, [op |-> "set", c |-> c])
               /\ UNCHANGED <<phase, at, lvl, input, builds>>
               /\ (hist = <<>> \/ hist[Len(hist)].op # "set")
\* announce the sizes; whatever is in lvl is kept where the count matches
MCAnnounce == /\ phase = "idle" /\ cfgs[b0].k # "none" /\ builds < MaxBuilds
              /\ \E w \in Ws, h \in Ws :
                   /\ input' = <<w, h>>
                   /\ lvl' = [i \in 1..cfgs[b0].n |-> <<Shrunk(cfgs[b0], i - 1, w), Shrunk(cfgs[b0], i - 1, h)>>]
                   /\ hist' = Append(hist, [op |-> "build", w |-> w, h |-> h])
              /\ phase' = "levels" /\ at' = 1 /\ UNCHANGED <<cfgs, pyrs, builds>>
\* give level at+1 the size its operation produces from the previous level
Step1(c, i, prev) == IF c.k = "fast" \/ (c.k = "fine" /\ i % c.steps = 0) THEN <<prev[1] \div 2, prev[2] \div 2>>
                     ELSE IF c.k = "fine" THEN prev
                     ELSE <<Shrunk(c, i, input[1]), Shrunk(c, i, input[2])>>
MCLevel == /\ phase = "levels" /\ at < Len(lvl)
           /\ lvl' = [lvl EXCEPT ![at + 1] = Step1(cfgs[b0], at, lvl[at])]
           /\ at' = at + 1 /\ UNCHANGED <<cfgs, pyrs, phase, input, builds, hist>>
MCDone == /\ phase = "levels" /\ at = Len(lvl) /\ phase' = "idle" /\ builds' = builds + 1 /\ at' = 0
          /\ pyrs' = [pyrs EXCEPT ![1] = [ex |-> TRUE, n |-> Len(lvl), sum |-> 0]]
          /\ UNCHANGED <<cfgs, lvl, input, hist>>
MCNext == MCConfigure \/ MCAnnounce \/ MCLevel \/ MCDone
MCSpec == MCInit /\ [][MCNext]_vars
EmitCase == (Emit /\ phase = "levels" /\ phase' = "idle" /\ builds' = MaxBuilds) => PrintT("CASE" \o ToJson(hist'))

AsAnnounced == phase = "levels" =>
    \A i \in 1..Len(lvl) : lvl[i] = <<Shrunk(cfgs[b0], i - 1, input[1]), Shrunk(cfgs[b0], i - 1, input[2])>>
Shrinking == phase = "levels" => \A i \in 1..(Len(lvl) - 1) : lvl[i + 1][1] <= lvl[i][1] /\ lvl[i + 1][2] <= lvl[i][2]
CountOK == phase = "levels" => Len(lvl) = cfgs[b0].n
FirstIsInput == phase = "levels" => lvl[1] = input
==============================================================================
