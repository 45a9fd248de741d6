--------------------------------- MODULE JsonText ---------------------------------
(* The tree a JSON text denotes, and what a printed tree must denote.           *)
(* Texts are sequences of bytes; a tree is [k, t, c]: kind, text, children       *)
(* (an object's children alternate member name and member value).               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Node(k, t, c) == [k |-> k, t |-> t, c |-> c]
Leaf(k, t) == Node(k, t, <<>>)

\* ---- characters to tokens; a token is [k, t]
White == {32, 9, 10, 13}
Digit == 48..57
Punct == {91, 93, 123, 125, 44, 58}
PunctKind(c) == CASE c = 91 -> "[" [] c = 93 -> "]" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 44 -> "," [] c = 58 -> ":"
Escaped(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
                [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 0
WORD == [true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>, null |-> <<110, 117, 108, 108>>]
Tok(k, t) == [k |-> k, t |-> t]
L0 == [m |-> "idle", t |-> <<>>, w |-> "none", toks |-> <<>>]
Push(s, k, t) == [s EXCEPT !.toks = Append(@, Tok(k, t)), !.m = "idle", !.t = <<>>]
Bad(s) == [s EXCEPT !.m = "err", !.toks = Append(@, Tok("bad", <<>>))]
Idle(s, c) == CASE c \in White -> s
                [] c \in Punct -> Push(s, PunctKind(c), <<>>)
                [] c = 34 -> [s EXCEPT !.m = "str", !.t = <<>>]
                [] c = 45 -> [s EXCEPT !.m = "minus", !.t = <<c>>]
                [] c = 48 -> [s EXCEPT !.m = "zero", !.t = <<c>>]
                [] c \in 49..57 -> [s EXCEPT !.m = "int", !.t = <<c>>]
                [] c = 116 -> [s EXCEPT !.m = "word", !.w = "true", !.t = <<c>>]
                [] c = 102 -> [s EXCEPT !.m = "word", !.w = "false", !.t = <<c>>]
                [] c = 110 -> [s EXCEPT !.m = "word", !.w = "null", !.t = <<c>>]
                [] OTHER -> Bad(s)
More(s, m, c) == [s EXCEPT !.m = m, !.t = Append(@, c)]
NumEnd == {"zero", "int", "frac", "exp"}
NumKind(m) == IF m \in {"zero", "int"} THEN "int" ELSE "fp"
LexChar(s, c) ==
  CASE s.m = "err" -> s
    [] s.m = "idle" -> Idle(s, c)
    [] s.m = "str" /\ c = 34 -> Push(s, "str", s.t)
    [] s.m = "str" /\ c = 92 -> [s EXCEPT !.m = "esc"]
    [] s.m = "str" -> More(s, "str", c)
    [] s.m = "esc" -> IF Escaped(c) = 0 THEN Bad(s) ELSE More(s, "str", Escaped(c))
    [] s.m = "word" -> LET w == WORD[s.w] IN
                         IF w[Len(s.t) + 1] # c THEN Bad(s)
                         ELSE IF Len(s.t) + 1 = Len(w) THEN Push(s, s.w, <<>>) ELSE More(s, "word", c)
    [] s.m = "minus" -> IF c = 48 THEN More(s, "zero", c) ELSE IF c \in Digit THEN More(s, "int", c) ELSE Bad(s)
    [] s.m = "zero" /\ c \in Digit -> Bad(s)
    [] s.m = "int" /\ c \in Digit -> More(s, "int", c)
    [] s.m \in {"zero", "int"} /\ c = 46 -> More(s, "dot", c)
    [] s.m \in {"zero", "int", "frac"} /\ c \in {69, 101} -> More(s, "e", c)
    [] s.m = "dot" -> IF c \in Digit THEN More(s, "frac", c) ELSE Bad(s)
    [] s.m = "frac" /\ c \in Digit -> More(s, "frac", c)
    [] s.m = "e" -> IF c \in {43, 45} THEN More(s, "esign", c) ELSE IF c \in Digit THEN More(s, "exp", c) ELSE Bad(s)
    [] s.m = "esign" -> IF c \in Digit THEN More(s, "exp", c) ELSE Bad(s)
    [] s.m = "exp" /\ c \in Digit -> More(s, "exp", c)
    [] OTHER -> Idle(Push(s, NumKind(s.m), s.t), c)   \* a number ended by this character
LexEnd(s) == CASE s.m \in {"idle", "err"} -> s
               [] s.m \in NumEnd -> Push(s, NumKind(s.m), s.t)
               [] OTHER -> Bad(s)
Tokens(text) == LexEnd(FoldLeft(LexChar, L0, text)).toks

\* ---- tokens to tree: a stack of open arrays and objects
Scalar == {"str", "int", "fp", "true", "false", "null"}
P0 == [m |-> "start", st |-> <<>>, root |-> <<>>, rest |-> FALSE]
Top(s) == s.st[Len(s.st)]
AfterValue(s) == IF s.st = <<>> THEN "done" ELSE "next"
Add(s, n) == [s EXCEPT !.st[Len(s.st)].c = Append(@, n)]
Value(s, n) == [Add(s, n) EXCEPT !.m = "next"]
Open(s, k) == [s EXCEPT !.st = Append(@, Node(k, <<>>, <<>>)), !.m = IF k = "arr" THEN "first" ELSE "firstname"]
Close(s) == LET n == Top(s) r == [s EXCEPT !.st = Front(@)] IN
            IF r.st = <<>> THEN [r EXCEPT !.root = <<n>>, !.m = "done"] ELSE Value(r, n)
Wrong(s) == [s EXCEPT !.m = "err"]
ParseTok(s, x) ==
  CASE s.m = "err" -> s
    [] s.m = "done" -> [s EXCEPT !.rest = TRUE]
    [] s.m \in {"start", "first", "value"} /\ x.k = "[" -> Open(s, "arr")
    [] s.m \in {"start", "first", "value"} /\ x.k = "{" -> Open(s, "obj")
    [] s.m \in {"first", "value"} /\ x.k \in Scalar -> Value(s, Leaf(x.k, x.t))
    [] s.m = "first" /\ x.k = "]" -> Close(s)
    [] s.m = "firstname" /\ x.k = "}" -> Close(s)
    [] s.m \in {"firstname", "name"} /\ x.k = "str" -> [Add(s, Leaf("str", x.t)) EXCEPT !.m = "colon"]
    [] s.m = "colon" /\ x.k = ":" -> [s EXCEPT !.m = "value"]
    [] s.m = "next" /\ x.k = "," -> [s EXCEPT !.m = IF Top(s).k = "arr" THEN "value" ELSE "name"]
    [] s.m = "next" /\ x.k = "]" /\ Top(s).k = "arr" -> Close(s)
    [] s.m = "next" /\ x.k = "}" /\ Top(s).k = "obj" -> Close(s)
    [] OTHER -> Wrong(s)
ParseToks(toks) == FoldLeft(ParseTok, P0, toks)
Parse(text) == ParseToks(Tokens(text))
\* the text is one array or object; nothing but white space follows it
IsDocument(p) == p.m = "done" /\ ~p.rest
\* an array or object followed by something else (what follows it is not specified)
HasTail(p) == p.m = "done" /\ p.rest
Tree(p) == p.root[1]
Denotes(text, tree) == LET p == Parse(text) IN IsDocument(p) /\ Tree(p) = tree

\* ---- what walking a tree by position and by a list of names shows
Members(n) == Len(n.c) \div 2
Find(n, name) == SelectInSeq([i \in 1..Members(n) |-> n.c[(2 * i) - 1].t], LAMBDA x : x = name)
Show(k, t, q) == [k |-> k, t |-> t, q |-> q]
RECURSIVE Walk(_, _)
Walk(n, names) ==
  CASE n.k = "arr" -> <<Show("arr", <<>>, Len(n.c))>> \o FlattenSeq([i \in 1..Len(n.c) |-> Walk(n.c[i], names)])
    [] n.k = "obj" -> <<Show("obj", <<>>, Len(n.c))>> \o
           FlattenSeq([j \in 1..Len(names) |->
               IF Find(n, names[j]) = 0 THEN <<Show("none", <<>>, 0)>> ELSE Walk(n.c[2 * Find(n, names[j])], names)])
    [] OTHER -> <<Show(n.k, n.t, 0)>>

\* ---- a printer, used in the model to show that every tree has a text
EscText(t) == <<34>> \o FlattenSeq([i \in 1..Len(t) |->
   CASE t[i] = 34 -> <<92, 34>> [] t[i] = 92 -> <<92, 92>> [] t[i] = 8 -> <<92, 98>> [] t[i] = 12 -> <<92, 102>>
     [] t[i] = 10 -> <<92, 110>> [] t[i] = 13 -> <<92, 114>> [] t[i] = 9 -> <<92, 116>> [] OTHER -> <<t[i]>>]) \o <<34>>
Sep(xs) == FlattenSeq([i \in 1..Len(xs) |-> IF i = 1 THEN xs[i] ELSE <<44>> \o xs[i]])
RECURSIVE Text(_)
Text(n) == CASE n.k = "str" -> EscText(n.t)
             [] n.k \in {"int", "fp"} -> n.t
             [] n.k \in {"true", "false", "null"} -> WORD[n.k]
             [] n.k = "arr" -> <<91>> \o Sep([i \in 1..Len(n.c) |-> Text(n.c[i])]) \o <<93>>
             [] n.k = "obj" -> <<123>> \o Sep([i \in 1..Members(n) |-> Text(n.c[(2 * i) - 1]) \o <<58>> \o Text(n.c[2 * i])]) \o <<125>>
===============================================================================
