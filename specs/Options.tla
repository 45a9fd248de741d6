------------------------------- MODULE Options -------------------------------
(* A set of command-line options as its user sees it.  Texts are sequences of  *)
(* byte values; a value is the sequence that a read of its type yields (<<0>>  *)
(* or <<1>> for a switch, the integer, the four 16-bit pieces of a double, the *)
(* bytes of a string; NULLTXT stands for a missing string), together with the  *)
(* text under which it is printed.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES opts,    \* declared options, in order
          rest,    \* the gatherer of plain arguments
          texts,   \* [prog, header, footer]
          over     \* the program has ended (fatally or after printing its usage)

ovars == <<opts, rest, texts, over>>

NULLTXT == <<-1>>
NoRest == [decl |-> FALSE, req |-> FALSE, help |-> <<>>, val |-> <<>>]

Range(s) == {s[i] : i \in 1..Len(s)}
IndexOf(c, s) == IF \E i \in 1..Len(s) : s[i] = c
                 THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i-1) : s[j] # c
                 ELSE 0
DASH == 45
BAR == 124
ValidShort(n) == Len(n) = 2 /\ n[1] = DASH
ValidLong(n) == Len(n) > 2 /\ n[1] = DASH /\ n[2] = DASH
ValidName(n) == ValidShort(n) \/ ValidLong(n)

\* "-x", "--long", or both joined by a bar, in either order
NameParts(t) == LET k == IndexOf(BAR, t)
                IN IF k = 0 THEN <<t>> ELSE <<SubSeq(t, 1, k - 1), SubSeq(t, k + 1, Len(t))>>
NamesOK(t) == \A i \in 1..Len(NameParts(t)) : ValidName(NameParts(t)[i])
PickName(t, P(_)) == LET c == {i \in 1..Len(NameParts(t)) : P(NameParts(t)[i])}
                     IN IF c = {} THEN <<>> ELSE NameParts(t)[CHOOSE i \in c : \A j \in c : j <= i]
ShortOf(t) == PickName(t, ValidShort)
LongOf(t) == PickName(t, ValidLong)

Names(o) == {n \in {o.short, o.long} : n # <<>>}
Find(os, n) == IF \E i \in 1..Len(os) : n \in Names(os[i])
               THEN CHOOSE i \in 1..Len(os) : n \in Names(os[i]) ELSE 0

Init == opts = <<>> /\ rest = NoRest /\ texts = [prog |-> NULLTXT, header |-> <<>>, footer |-> <<>>]
        /\ over = FALSE

End == over' = TRUE /\ UNCHANGED <<opts, rest, texts>>

-------------------------------------------------------------------------------
(* Declaring *)
Duplicate(t) == \E i \in 1..Len(opts) : Names(opts[i]) \cap {ShortOf(t), LongOf(t)} # {}
DeclFails(t) == ~NamesOK(t) \/ Duplicate(t)
Declare(t, ty, req, def, help) ==
    /\ ~over /\ ~DeclFails(t)
    /\ opts' = Append(opts, [short |-> ShortOf(t), long |-> LongOf(t), type |-> ty, req |-> req,
                             def |-> def, val |-> def, set |-> FALSE, help |-> help])
    /\ UNCHANGED <<rest, texts, over>>
DeclareFatal(t) == ~over /\ DeclFails(t) /\ End
DeclareRest(req, help) ==
    /\ ~over
    /\ rest' = [decl |-> TRUE, req |-> req, help |-> help, val |-> <<>>]
    /\ UNCHANGED <<opts, texts, over>>
BadFormat == ~over /\ End
\* several declarations in one call: as one after the other, up to the first that is refused
RECURSIVE Grown(_, _)
Grown(st, ds) ==
    IF ds = <<>> THEN st
    ELSE LET d == Head(ds)
             dup == \E i \in 1..Len(st.opts) : Names(st.opts[i]) \cap {ShortOf(d.names), LongOf(d.names)} # {}
         IN IF d.ty = "r" THEN Grown([st EXCEPT !.rest = [decl |-> TRUE, req |-> d.req, help |-> d.help, val |-> <<>>]], Tail(ds))
            ELSE IF ~NamesOK(d.names) \/ dup THEN [st EXCEPT !.ok = FALSE]
            ELSE Grown([st EXCEPT !.opts = Append(@, [short |-> ShortOf(d.names), long |-> LongOf(d.names), type |-> d.ty, req |-> d.req,
                                                       def |-> d.val, val |-> d.val, set |-> FALSE, help |-> d.help])], Tail(ds))
DeclareAll(ds) == LET g == Grown([ok |-> TRUE, opts |-> opts, rest |-> rest], ds)
                  IN ~over /\ g.ok /\ opts' = g.opts /\ rest' = g.rest /\ UNCHANGED <<texts, over>>
DeclareAllFatal(ds) == ~over /\ ~Grown([ok |-> TRUE, opts |-> opts, rest |-> rest], ds).ok /\ End

-------------------------------------------------------------------------------
(* Parsing: walk the arguments left to right; an argument that names an option *)
(* takes effect (consuming its successor if the option takes a value), every   *)
(* other argument is a plain one.                                              *)
TakesValue(o) == o.type \in {"i", "d", "s"}
Given(o, arg) == CASE o.type = "i" -> arg.i [] o.type = "d" -> arg.d [] o.type = "s" -> arg.s
TRUEVAL == [v |-> <<1>>, t |-> <<116, 114, 117, 101>>]

RECURSIVE Walk(_, _, _)
Walk(st, args, k) ==
    IF k > Len(args) THEN st
    ELSE LET j == Find(st.opts, args[k].s.v)
         IN IF j = 0 THEN Walk([st EXCEPT !.plain = Append(@, args[k].s.v)], args, k + 1)
            ELSE LET o == st.opts[j]
                 IN IF o.type = "h" THEN [st EXCEPT !.res = "exit"]
                    ELSE IF TakesValue(o)
                    THEN IF k = Len(args) THEN [st EXCEPT !.res = "fatal"]
                         ELSE Walk([st EXCEPT !.opts[j].val = Given(o, args[k + 1]),
                                              !.opts[j].set = TRUE], args, k + 2)
                    ELSE Walk([st EXCEPT !.opts[j].val = TRUEVAL, !.opts[j].set = TRUE], args, k + 1)

Fresh == [i \in 1..Len(opts) |-> [opts[i] EXCEPT !.val = opts[i].def, !.set = FALSE]]
Walked(args) == Walk([opts |-> Fresh, plain |-> <<>>, res |-> "ok"], args, 2)
MissingRequired(w) == \/ \E i \in 1..Len(w.opts) : w.opts[i].req /\ ~w.opts[i].set
                      \/ rest.decl /\ rest.req /\ w.plain = <<>>
ParseResult(args) == LET w == Walked(args)
                     IN IF w.res # "ok" THEN w.res
                        ELSE IF MissingRequired(w) THEN "fatal" ELSE "ok"
\* args[1] is the program's name
Parse(args) ==
    /\ ~over /\ ParseResult(args) = "ok"
    /\ LET w == Walked(args)
       IN /\ opts' = w.opts
          /\ rest' = IF rest.decl THEN [rest EXCEPT !.val = w.plain] ELSE rest
    /\ texts' = [texts EXCEPT !.prog = args[1].s.v]
    /\ UNCHANGED over
ParseEnds(args) == ~over /\ ParseResult(args) # "ok" /\ End

-------------------------------------------------------------------------------
(* Reading by either name *)
ReadOK(n, ty) == Find(opts, n) # 0 /\ opts[Find(opts, n)].type = ty
ReadVal(n) == opts[Find(opts, n)].val.v
Read(n, ty) == ~over /\ ReadOK(n, ty) /\ UNCHANGED ovars
ReadFatal(n, ty) == ~over /\ ~ReadOK(n, ty) /\ End
IsSet(n) == ~over /\ Find(opts, n) # 0 /\ UNCHANGED ovars
IsSetFatal(n) == ~over /\ Find(opts, n) = 0 /\ End

SetText(which, t) == /\ ~over /\ texts' = [texts EXCEPT ![which] = t] /\ UNCHANGED <<opts, rest, over>>

-------------------------------------------------------------------------------
(* Printed views *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Cat(n, E(_)) == Flat([i \in 1..n |-> E(i)])
NL == <<10>>
Joined(o) == IF o.long # <<>> /\ o.short # <<>> THEN o.long \o <<44, 32>> \o o.short
             ELSE IF o.long # <<>> THEN o.long ELSE o.short
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Width(r) == MaxOf({Len(Joined(opts[i])) : i \in 1..Len(opts)} \cup (IF r /\ rest.decl THEN {Len(rest.help)} ELSE {}))
PadTo(s, w) == [i \in 1..(IF Len(s) < w THEN w - Len(s) ELSE 0) |-> 32] \o s
ValuesText ==
    Cat(Len(opts), LAMBDA i : IF opts[i].type = "h" THEN <<>>
                              ELSE PadTo(Joined(opts[i]), Width(TRUE)) \o <<58, 32>> \o opts[i].val.t \o NL)
    \o (IF ~rest.decl THEN <<>>
        ELSE PadTo(rest.help, Width(TRUE)) \o <<58, 32, 91>>
             \o Cat(Len(rest.val), LAMBDA i : <<39>> \o rest.val[i] \o <<39>>
                                              \o (IF i < Len(rest.val) THEN <<44, 32>> ELSE <<>>))
             \o <<93>> \o NL)
USAGE == <<85, 83, 65, 71, 69, 58, 32>>                       \* "USAGE: "
OPTIONS == <<32, 91, 111, 112, 116, 105, 111, 110, 115, 93>>  \* " [options]"
PROG == <<112, 114, 111, 103>>
REQUIRED == <<40, 82, 69, 81, 85, 73, 82, 69, 68, 41>>        \* "(REQUIRED)"
UsageTextFor(prog) ==
    texts.header \o USAGE \o (IF prog = NULLTXT THEN PROG ELSE prog) \o OPTIONS
    \o (IF ~rest.decl THEN <<>>
        ELSE IF rest.req THEN <<32, 60>> \o rest.help \o <<62>>
        ELSE <<32, 91, 60>> \o rest.help \o <<62, 93>>)
    \o NL
    \o Cat(Len(opts), LAMBDA i :
           <<32, 32>> \o PadTo(Joined(opts[i]), Width(FALSE)) \o <<32, 58, 32>> \o opts[i].help \o <<32>>
           \o (IF opts[i].req THEN REQUIRED
               ELSE IF opts[i].type = "h" THEN <<>> ELSE <<91>> \o opts[i].def.t \o <<93>>)
           \o NL)
    \o texts.footer
UsageText == UsageTextFor(texts.prog)

-------------------------------------------------------------------------------
(* Properties of every reachable state *)
NamesUnique == \A i, j \in 1..Len(opts) : i # j => Names(opts[i]) \cap Names(opts[j]) = {}
UnsetMeansDefault == \A i \in 1..Len(opts) : ~opts[i].set => opts[i].val = opts[i].def
SwitchSetIsTrue == \A i \in 1..Len(opts) : opts[i].type = "b" /\ opts[i].set => opts[i].val = TRUEVAL
NoRestNoValues == ~rest.decl => rest.val = <<>>
OptInv == NamesUnique /\ UnsetMeansDefault /\ SwitchSetIsTrue /\ NoRestNoValues

\* a second parse does not depend on the first one
ParseForgets(args) == LET w == Walked(args) IN \A i \in 1..Len(w.opts) :
                          ~w.opts[i].set => w.opts[i].val = opts[i].def
\* plain arguments plus what options consumed are all the arguments
Accounted(args) ==
    LET w == Walked(args) IN w.res = "ok" =>
        \A k \in 1..Len(w.plain) : \E m \in 2..Len(args) : args[m].s.v = w.plain[k]
===============================================================================
