------------------------------ MODULE ColorTrace ------------------------------
EXTENDS Color, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
Pix(s) == [i \in 1..(Len(s) \div 4) |-> <<s[(4 * i) - 3], s[(4 * i) - 2], s[(4 * i) - 1], s[4 * i]>>]
Flat(c) == [j \in 1..(4 * Len(c)) |-> c[((j - 1) \div 4) + 1][((j - 1) % 4) + 1]]
\* float planes are in 1024ths; gray is clipped to [0, 1]
FClip(v) == IF v < 0 THEN 0 ELSE IF v > 102400 THEN 102400 ELSE v
FLumaOK(v, p) == LET d == (100 * v) - FClip((30 * p[1]) + (59 * p[2]) + (11 * p[3])) IN d <= 110 /\ d >= -110
Mapped(m, qs, r) == Len(r) = 4 * Len(qs) /\ \A i \in 1..Len(qs) : r[4 * i] = Opaque /\ \A ch \in 1..3 : ByteOK(r[(4 * (i - 1)) + ch], Level(m, qs[i], ch)) = TRUE
\* byte v as a map value: v / 255, so table positions are (n - 1) v / 255
ByteLevel(m, v, ch) ==
    IF m = "gray" THEN (v * 100000) \div 255
    ELSE LET t == Table(m)  n == Len(t)  x == (n - 1) * v  k == (x \div 255) + 1  a == x % 255
         IN IF k = n THEN t[n][ch] ELSE (((255 - a) * t[k][ch]) + (a * t[k + 1][ch])) \div 255
MappedByte(m, vs, r) == Len(r) = 4 * Len(vs) /\ \A i \in 1..Len(vs) : r[4 * i] = Opaque /\ \A ch \in 1..3 : ByteOK(r[(4 * (i - 1)) + ch], ByteLevel(m, vs[i], ch)) = TRUE
Step(e) ==
  \/ e.op = "case" /\ UNCHANGED cvars
  \/ e.op = "torgba" /\ DoRgba(e.g) /\ e.r = Flat(rgba') /\ e.guard
  \/ e.op = "togray" /\ DoGray(Pix(e.c)) /\ e.r = gray' /\ e.guard
  \/ e.op = "torgbaf" /\ UNCHANGED cvars /\ e.r = Flat([i \in 1..Len(e.g) |-> <<e.g[i], e.g[i], e.g[i], 1024>>]) /\ e.guard
  \/ e.op = "tograyf" /\ UNCHANGED cvars /\ Len(e.r) = Len(e.c) \div 4 /\ (\A i \in 1..Len(e.r) : FLumaOK(e.r[i], Pix(e.c)[i])) = TRUE /\ e.guard
  \/ e.op = "map" /\ UNCHANGED cvars /\ (Mapped(e.m, e.q, e.r) /\ Mapped(e.m, e.q, e.r2)) = TRUE
  \/ e.op = "mapimg" /\ UNCHANGED cvars /\ e.w = e.rw /\ e.h = e.rh /\ e.type = 1 /\ e.dt = 0 /\ e.kept
        /\ (IF e.f THEN Mapped(e.m, e.v, e.r) ELSE MappedByte(e.m, e.v, e.r)) = TRUE
TraceInit == ColorInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
