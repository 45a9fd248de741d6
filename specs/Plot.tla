--------------------------------- MODULE Plot ----------------------------------
(* Plots are driven by a script.  The specification is the reader of the script: *)
(* what it has in force after the commands it got (terminal, output, title, axis  *)
(* labels, named data) must be what the calls asked for, and only that.           *)
EXTENDS Integers, Sequences, TLC
CONSTANT Plots
VARIABLE plots
None == "(none)"
Unset == [ok |-> TRUE, term |-> None, size |-> <<0, 0>>, unit |-> "", name |-> None, id |-> 0, feed |-> None,
          output |-> None, title |-> None, x |-> None, y |-> None, data |-> <<>>, inline |-> <<>>]
NoPlot == [ex |-> FALSE]
Bad(s) == [s EXCEPT !.ok = FALSE]
-------------------------------------------------------------------------------
(* ---- the reader.  Tokens: w word, s string, z size, n number, end (of a command), *)
(* block (named lines), raw (lines of data given inline)                             *)
IsW(t, v) == t.k = "w" /\ t.t = v
\* options of a terminal, from position i
RECURSIVE Options(_, _, _)
Options(ts, i, s) ==
    IF i > Len(ts) THEN s
    ELSE LET t == ts[i]
             more == i < Len(ts)
         IN IF t.k = "n" THEN Options(ts, i + 1, [s EXCEPT !.id = t.v])
            ELSE IF IsW(t, "size") THEN IF more /\ ts[i + 1].k = "z" THEN Options(ts, i + 2, [s EXCEPT !.size = <<ts[i + 1].w, ts[i + 1].h>>, !.unit = ts[i + 1].u]) ELSE Bad(s)
            ELSE IF IsW(t, "title") \/ IsW(t, "name") THEN IF more /\ ts[i + 1].k = "s" THEN Options(ts, i + 2, [s EXCEPT !.name = ts[i + 1].t]) ELSE Bad(s)
            ELSE IF t.k = "w" THEN IF t.t \in {"feed", "nofeed"} THEN Options(ts, i + 1, [s EXCEPT !.feed = t.t])
                                   ELSE IF t.t \in {"enhanced", "color"} THEN Options(ts, i + 1, s) ELSE Bad(s)
            ELSE Bad(s)
Exec(ts, s) ==
    IF ts = <<>> THEN s
    ELSE IF IsW(ts[1], "set") /\ Len(ts) >= 2 THEN
        CASE IsW(ts[2], "title")  -> IF Len(ts) = 3 /\ ts[3].k = "s" THEN [s EXCEPT !.title = ts[3].t] ELSE Bad(s)
          [] IsW(ts[2], "xlabel") -> IF Len(ts) = 3 /\ ts[3].k = "s" THEN [s EXCEPT !.x = ts[3].t] ELSE Bad(s)
          [] IsW(ts[2], "ylabel") -> IF Len(ts) = 3 /\ ts[3].k = "s" THEN [s EXCEPT !.y = ts[3].t] ELSE Bad(s)
          [] IsW(ts[2], "output") -> IF Len(ts) = 3 /\ ts[3].k = "s" THEN [s EXCEPT !.output = ts[3].t] ELSE Bad(s)
          [] IsW(ts[2], "terminal") -> IF Len(ts) >= 3 /\ ts[3].k = "w"
                                       THEN Options(ts, 4, [s EXCEPT !.term = ts[3].t, !.size = <<0, 0>>, !.unit = "", !.name = None, !.id = 0, !.feed = None]) ELSE Bad(s)
          [] OTHER -> s
    ELSE IF IsW(ts[1], "unset") /\ Len(ts) = 2 /\ IsW(ts[2], "output") THEN [s EXCEPT !.output = None]
    ELSE IF ts[1].k = "block" THEN [s EXCEPT !.data = Append(@, [label |-> ts[1].t, rows |-> ts[1].rows])]
    ELSE IF ts[1].k = "raw" THEN [s EXCEPT !.inline = Append(@, ts[1].rows)]
    ELSE s
\* the commands, one after the other
RECURSIVE Read(_, _)
Read(cs, s) == IF cs = <<>> THEN s ELSE Read(Tail(cs), Exec(Head(cs), s))
-------------------------------------------------------------------------------
(* ---- what the calls ask for; sizes in millionths *)
Term(s, t, w, h, u) == [s EXCEPT !.term = t, !.size = <<w, h>>, !.unit = u, !.name = None, !.id = 0, !.feed = None]
Window(s, w, h, name, id) == [Term(s, "qt", w, h, "") EXCEPT !.name = name, !.id = id, !.output = None]
Svg(s, w, h, name, file) == [Term(s, "svg", w, h, "") EXCEPT !.name = name, !.output = file]
Pdf(s, w, h, file) == [Term(s, "pdfcairo", w, h, "cm") EXCEPT !.output = file]
Eps(s, w, h, file) == [Term(s, "epscairo", w, h, "cm") EXCEPT !.output = file]
Ascii(s, w, h, feed) == [Term(s, "dumb", w, h, "") EXCEPT !.feed = IF feed THEN "feed" ELSE "nofeed"]
\* one call for all of them: whole pixels on screen and in SVG files, centimetres on paper
Whole(v) == (v \div 1000000) * 1000000
Choose(s, type, w, h, name, id) ==
    CASE type = "window" -> Window(s, Whole(w), Whole(h), name, id) [] type = "svg" -> Svg(s, Whole(w), Whole(h), "VIRG", name)
      [] type = "pdf" -> Pdf(s, w, h, name) [] type = "eps" -> Eps(s, w, h, name) [] type = "ascii" -> Ascii(s, Whole(w), Whole(h), TRUE)
Asked(s, c) ==
    CASE c.op = "window" -> Window(s, c.w, c.h, c.name, c.id) [] c.op = "svg" -> Svg(s, c.w, c.h, c.name, c.file)
      [] c.op = "pdf" -> Pdf(s, c.w, c.h, c.file) [] c.op = "eps" -> Eps(s, c.w, c.h, c.file)
      [] c.op = "ascii" -> Ascii(s, c.w, c.h, c.feed) [] c.op = "terminal" -> Choose(s, c.type, c.w, c.h, c.name, c.id)
      [] c.op = "title" -> [s EXCEPT !.title = c.t] [] c.op = "xlabel" -> [s EXCEPT !.x = c.t] [] c.op = "ylabel" -> [s EXCEPT !.y = c.t]
      [] c.op = "labels" -> [s EXCEPT !.title = c.t, !.x = c.x, !.y = c.y]
      [] c.op = "frame" -> [s EXCEPT !.data = Append(@, [label |-> c.label, rows |-> c.rows])]
      [] c.op = "inline" -> [s EXCEPT !.inline = Append(@, c.rows)]
      [] OTHER -> s
-------------------------------------------------------------------------------
PlotInit == plots = [p \in Plots |-> NoPlot]
\* piped: the script can be looked at only when the plot is given up
New(p, piped) == ~plots[p].ex /\ plots' = [plots EXCEPT ![p] = [ex |-> TRUE, piped |-> piped, s |-> Unset]]
Call(p, c) == plots[p].ex /\ plots' = [plots EXCEPT ![p].s = Asked(@, c)]
Free(p) == plots[p].ex /\ plots' = [plots EXCEPT ![p] = NoPlot]
\* the reader got exactly what was asked for, from the commands written meanwhile
Follows(p, cs) == Read(cs, IF plots[p].ex THEN plots[p].s ELSE Unset) = plots'[p].s
WholeScript(p, cs) == Read(cs, Unset) = plots[p].s
===============================================================================
