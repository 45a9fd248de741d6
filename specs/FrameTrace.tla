------------------------------ MODULE FrameTrace ------------------------------
EXTENDS Csv, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<f, dead, l>>
\* observed frame: [nr, cols: [type, label, levels, cells: [na, v]]]
CellShown(col, r, x) == IF x.na THEN col.cells[r] = NA ELSE col.cells[r] # NA /\ col.cells[r] = x.v
ColShown(col, o) == /\ o.type = col.type /\ o.label = col.label /\ o.levels = col.levels
                    /\ Len(o.cells) = Len(col.cells)
                    /\ \A r \in 1..Len(o.cells) : CellShown(col, r, o.cells[r])
Shows(e) == /\ e.fr.nr = f'.nr /\ Len(e.fr.cols) = NC(f')
            /\ \A c \in 1..NC(f') : ColShown(f'.cols[c], e.fr.cols[c])
Ok(e) == e.out = "ok" /\ Shows(e)
TabText(tab, v) == tab[CHOOSE i \in 1..Len(tab) : tab[i].v = v].t
Step(e) ==
  \/ e.op = "case" /\ f' = Empty /\ dead' = FALSE
  \/ e.op = "addcol" /\ AddColumn(e.t, e.v) /\ Ok(e)
  \/ e.op = "addcols" /\ AddColumns(e.ts, e.vs) /\ Ok(e)
  \/ e.op = "addrow" /\ AddRow /\ Ok(e) /\ e.r = f'.nr
  \/ e.op = "append" /\ AppendRow(e.vs) /\ Ok(e) /\ e.r = f'.nr
  \/ e.op = "setrow" /\ SetRow(e.r, e.vs) /\ Ok(e)
  \/ e.op = "set" /\ Set(e.t, e.r, e.c, e.v) /\ Ok(e)
  \/ e.op = "setself" /\ Set(e.t, e.r, e.c, Cell(f, e.r2, e.c2)) /\ Ok(e)
  \/ e.op = "set" /\ SetWrong(e.t, e.r, e.c) /\ e.out = "fatal"
  \/ e.op = "setna" /\ SetNA(e.r, e.c) /\ Ok(e)
  \/ e.op = "get" /\ Get(e.t, e.r, e.c) /\ Ok(e) /\ e.v = Cell(f, e.r, e.c)
  \/ e.op = "get" /\ GetWrong(e.t, e.r, e.c) /\ e.out = "fatal"
  \/ e.op = "factor" /\ (LET D(v) == TabText(e.tab, v) IN MakeFactor(e.c, D)) /\ Ok(e)
  \/ e.op = "load" /\ Load(e.text, e.tab, e.fac) /\ Ok(e)
  \/ e.op = "load" /\ e.out = "fatal" /\ LoadFails(e.text)
  \* independent parses of texts: a refusal does not end the history
  \/ e.op = "parse" /\ e.out = "ok" /\ WellFormed(Read(e.text))
                    /\ Become(IF e.fac THEN AsFactors(Loaded(Read(e.text).recs, e.tab)) ELSE Loaded(Read(e.text).recs, e.tab)) /\ Shows(e)
  \/ e.op = "parse" /\ e.out = "fatal" /\ ~WellFormed(Read(e.text)) /\ Become(f) /\ Shows(e)
  \/ e.op = "save" /\ Save(e.text, e.tab) /\ Ok(e)
  \/ e.op = "nofile" /\ e.res = "refused" /\ Become(f)
  \/ e.op = "end" /\ e.heap = 0 /\ Live /\ UNCHANGED fvars
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
