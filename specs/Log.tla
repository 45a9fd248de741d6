--------------------------------- MODULE Log ----------------------------------
(* Diagnostics.  Messages have a level (0 info, 1 normal, 2 warning, 3 error)    *)
(* and appear, in order and unabridged, when the verbosity does not exclude      *)
(* them; errors always do.  A fatal error is never excluded: it goes to the      *)
(* handler in force and the call does not return.                                *)
EXTENDS Integers, Sequences
VARIABLES verb, handler, tty, shown, over
lvars == <<verb, handler, tty, shown, over>>
Handlers == {"default", "h1", "h2"}
LogInit == verb = 1 /\ handler = "default" /\ tty = FALSE /\ shown = <<>> /\ over = "no"
\* ---- text: sequences of character codes
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat10(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o Nat10(0 - n) ELSE Nat10(n)
\* a message is a list of pieces: text as it is, or a number
Piece(p) == IF p.k = "int" THEN Dec(p.v) ELSE p.s
RECURSIVE Text(_)
Text(ps) == IF ps = <<>> THEN <<>> ELSE Piece(Head(ps)) \o Text(Tail(ps))
Letter == <<73, 76, 87, 69, 70>>                       \* I L W E F
Where(level, tag, fn, line) == <<91, Letter[level + 1], 93, 91>> \o tag \o <<93, 91>> \o fn \o <<58>> \o Dec(line) \o <<93, 32>>
Esc(s) == <<27, 91>> \o s \o <<109>>
ColorOf == <<Esc(<<51, 52, 59, 49>>), Esc(<<51, 54>>), Esc(<<51, 51>>), Esc(<<51, 49, 59, 49>>), Esc(<<51, 53, 59, 49>>)>>
Plain == Esc(<<48>>)
\* a terminal gets the line in the color of its level
Line(level, tag, fn, line, ps) ==
    LET t == Where(level, tag, fn, line) \o Text(ps)
    IN IF tty THEN ColorOf[level + 1] \o t \o Plain \o <<10>> ELSE Append(t, 10)
\* ---- transitions; out: what appears because of the call
Verbosity(v) == over = "no" /\ verb' = v /\ UNCHANGED <<handler, tty, shown, over>>
Handle(h) == over = "no" /\ handler' = h /\ UNCHANGED <<verb, tty, shown, over>>
Terminal(t) == over = "no" /\ tty' = t /\ UNCHANGED <<verb, handler, shown, over>>
Passes(level) == verb <= level
Say(level, tag, fn, line, ps, out) ==
    /\ over = "no"
    /\ out = IF Passes(level) THEN Line(level, tag, fn, line, ps) ELSE <<>>
    /\ shown' = IF Passes(level) THEN Append(shown, level) ELSE shown
    /\ UNCHANGED <<verb, handler, tty, over>>
\* to the handler in force; the default one shows the error and ends the program
Fatal(tag, fn, line, ps, by, text, out) ==
    /\ over = "no" /\ by = handler
    /\ IF handler = "default" THEN out = Line(4, tag, fn, line, ps) ELSE out = <<>> /\ text = Text(ps)
    /\ shown' = IF handler = "default" THEN Append(shown, 4) ELSE shown
    /\ over' = IF handler = "default" THEN "ended" ELSE "handled"
    /\ UNCHANGED <<verb, handler, tty>>
\* the driver goes on in a process in which the fatal call did not happen
Resume == over # "no" /\ over' = "no" /\ UNCHANGED <<verb, handler, tty, shown>>
\* ---- assertions: what holds has no effect, what does not is fatal
Holds(kind, a, b, c) == CASE kind = "plain" -> a > b [] kind = "ptr" -> a # 0 [] kind = "custom" -> a > b
                          [] kind = "range" -> a >= b /\ a <= c [] kind = "index" -> a >= 0 /\ a < b
===============================================================================
