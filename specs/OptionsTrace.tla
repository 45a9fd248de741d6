----------------------------- MODULE OptionsTrace -----------------------------
(* Explains recordings of the C and the C++ option parser.                     *)
EXTENDS Options, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<opts, rest, texts, over, l>>

\* integer text as atol reads it; values beyond nine digits carry no guarantee
IsSpace(c) == c = 32 \/ c \in 9..13
IsDigit(c) == c \in 48..57
RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipSpace(s, i + 1) ELSE i
RECURSIVE SkipZero(_, _)
SkipZero(s, i) == IF i <= Len(s) /\ s[i] = 48 THEN SkipZero(s, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE Num(_, _, _, _)
Num(s, i, e, acc) == IF i >= e THEN acc ELSE Num(s, i + 1, e, 10 * acc + (s[i] - 48))
WIDE == 999999999
ReadInt(s) == LET a == SkipSpace(s, 1)
                  neg == a <= Len(s) /\ s[a] = 45
                  b == IF a <= Len(s) /\ s[a] \in {43, 45} THEN a + 1 ELSE a
                  z == SkipZero(s, b)
                  e == DigitsEnd(s, z)
              IN IF e - z > 9 THEN WIDE
                 ELSE LET n == Num(s, z, e, 0) IN IF neg THEN 0 - n ELSE n
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE Dec(n)
Quoted(s) == <<39>> \o s \o <<39>>
STRVAL(s) == [v |-> s, t |-> Quoted(s)]
INTVAL(n) == [v |-> <<n>>, t |-> IntText(n)]
FALSETXT == <<102, 97, 108, 115, 101>>
BOOLVAL(b) == IF b THEN TRUEVAL ELSE [v |-> <<0>>, t |-> FALSETXT]
\* a recorded argument: bytes, plus the double libc reads from it and its %f text
ArgVal(a) == [s |-> STRVAL(a.s), i |-> INTVAL(ReadInt(a.s)), d |-> [v |-> a.d, t |-> a.f]]
ArgVals(e) == [k \in 1..Len(e.argv) |-> ArgVal(e.argv[k])]
DefVal(e) == CASE e.ty = "b" -> BOOLVAL(e.def.i # 0)
               [] e.ty = "i" -> INTVAL(e.def.i)
               [] e.ty = "d" -> [v |-> e.def.d, t |-> e.def.f]
               [] e.ty = "s" -> STRVAL(e.def.s)
               [] e.ty = "h" -> [v |-> <<>>, t |-> <<>>]
GroupOf(e) == [k \in 1..Len(e.ds) |-> LET d == e.ds[k] IN [ty |-> d.ty, req |-> d.req, names |-> d.names, help |-> d.help, val |-> IF d.ty = "r" THEN <<>> ELSE DefVal(d)]]

\* everything a caller can read now
Shows(e) ==
    /\ \A k \in 1..Len(e.reads) :
          LET r == e.reads[k]
              j == Find(opts', r.n)
          IN /\ j # 0 /\ opts'[j].type = r.ty /\ opts'[j].set = r.set
             /\ (opts'[j].val.v = r.v \/ opts'[j].val.v = <<WIDE>> \/ opts'[j].val.v = <<0 - WIDE>>)
    /\ Len(e.reads) = Cardinality({<<i, n>> \in (1..Len(opts')) \X UNION {Names(opts'[i]) : i \in 1..Len(opts')} :
                                      n \in Names(opts'[i]) /\ opts'[i].type # "h"})
    /\ rest'.val = e.rest
HasWide == \E i \in 1..Len(opts) : opts[i].val.v = <<WIDE>> \/ opts[i].val.v = <<0 - WIDE>>

Step(e) ==
  \/ e.op = "case" /\ opts' = <<>> /\ rest' = NoRest /\ over' = FALSE
     /\ texts' = [prog |-> NULLTXT, header |-> <<>>, footer |-> <<>>]
  \/ e.op = "decl" /\ e.out = "ok" /\ Declare(e.names, e.ty, e.req, DefVal(e), e.help) /\ Shows(e)
  \/ e.op = "decl" /\ e.out = "fatal" /\ DeclareFatal(e.names)
  \/ e.op = "group" /\ e.out = "ok" /\ DeclareAll(GroupOf(e)) /\ Shows(e)
  \/ e.op = "group" /\ e.out = "fatal" /\ DeclareAllFatal(GroupOf(e))
  \/ e.op = "rest" /\ e.out = "ok" /\ DeclareRest(e.req, e.help) /\ Shows(e)
  \/ e.op = "badformat" /\ e.out = "fatal" /\ BadFormat
  \/ e.op = "parse" /\ e.out = "ok" /\ Parse(ArgVals(e)) /\ Shows(e)
  \/ e.op = "parse" /\ e.out = "fatal" /\ ParseResult(ArgVals(e)) = "fatal" /\ ParseEnds(ArgVals(e))
  \/ e.op = "parse" /\ e.out = "exit" /\ ParseResult(ArgVals(e)) = "exit" /\ ParseEnds(ArgVals(e))
     /\ e.err = UsageTextFor(e.argv[1].s)
  \/ e.op = "get" /\ e.out = "ok" /\ Read(e.n, e.ty) /\ (e.v = ReadVal(e.n) \/ HasWide)
  \/ e.op = "get" /\ e.out = "fatal" /\ ReadFatal(e.n, e.ty)
  \/ e.op = "isset" /\ e.out = "ok" /\ IsSet(e.n) /\ e.v = opts[Find(opts, e.n)].set
  \/ e.op = "isset" /\ e.out = "fatal" /\ IsSetFatal(e.n)
  \/ e.op = "header" /\ e.out = "ok" /\ SetText("header", e.text) /\ Shows(e)
  \/ e.op = "footer" /\ e.out = "ok" /\ SetText("footer", e.text) /\ Shows(e)
  \/ e.op = "values" /\ e.out = "ok" /\ ~over /\ (e.text = ValuesText \/ HasWide) /\ UNCHANGED ovars
  \/ e.op = "usage" /\ e.out = "ok" /\ ~over /\ e.text = UsageText /\ UNCHANGED ovars
  \/ e.op = "end" /\ ~over /\ UNCHANGED ovars

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceDone == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
