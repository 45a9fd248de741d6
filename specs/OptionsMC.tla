------------------------------ MODULE OptionsMC ------------------------------
EXTENDS Options, Json
CONSTANTS MaxDepth, MaxArgs, MaxDecl, Emit
VARIABLE hist
vars == <<opts, rest, texts, over, hist>>
view == <<opts, rest, texts, over>>

\* argument alphabet: "-a" "--aa" "-b" "x" "7"
Tok == << <<45, 97>>, <<45, 45, 97, 97>>, <<45, 98>>, <<120>>, <<55>> >>
IntOf(k) == IF k = 5 THEN 7 ELSE 0
Arg(k) == [s |-> [v |-> Tok[k], t |-> Tok[k]],
           i |-> [v |-> <<IntOf(k)>>, t |-> <<IntOf(k)>>],
           d |-> [v |-> <<IntOf(k)>>, t |-> <<IntOf(k)>>]]
P == [s |-> [v |-> PROG, t |-> PROG], i |-> [v |-> <<0>>, t |-> <<0>>], d |-> [v |-> <<0>>, t |-> <<0>>]]
ArgVecs == UNION {[1..n -> 1..Len(Tok)] : n \in 0..MaxArgs}
ArgsOf(w) == <<P>> \o [k \in 1..Len(w) |-> Arg(w[k])]

\* declarations: names text, type, required, default
Decls == << [n |-> <<45, 97>>, ty |-> "i", r |-> FALSE],
            [n |-> <<45, 97, 124, 45, 45, 97, 97>>, ty |-> "s", r |-> FALSE],
            [n |-> <<45, 45, 97, 97, 124, 45, 97>>, ty |-> "b", r |-> TRUE],
            [n |-> <<45, 98>>, ty |-> "b", r |-> FALSE],
            [n |-> <<45, 98>>, ty |-> "d", r |-> TRUE],
            [n |-> <<45, 98, 124, 45, 45, 97, 97>>, ty |-> "i", r |-> FALSE],
            [n |-> <<45, 97, 97>>, ty |-> "i", r |-> FALSE] >>
DefOf(d) == CASE d.ty = "b" -> [v |-> <<0>>, t |-> <<102>>]
              [] d.ty = "i" -> [v |-> <<3>>, t |-> <<3>>]
              [] d.ty = "d" -> [v |-> <<3>>, t |-> <<3>>]
              [] d.ty = "s" -> [v |-> <<100>>, t |-> <<100>>]
Types == {"b", "i", "d", "s"}

MCInit == Init /\ hist = <<>>
Log(r) == hist' = IF Emit THEN Append(hist, r) ELSE hist
MCDeclare == /\ Len(opts) < MaxDecl
             /\ \E k \in 1..Len(Decls) : /\ Declare(Decls[k].n, Decls[k].ty, Decls[k].r, DefOf(Decls[k]), <<>>)
                                         /\ Log([op |-> "decl", k |-> k])
MCDeclareFatal == \E k \in 1..Len(Decls) : DeclareFatal(Decls[k].n) /\ Log([op |-> "decl", k |-> k])
MCDeclareRest == /\ ~rest.decl
                 /\ \E r \in BOOLEAN : DeclareRest(r, <<>>) /\ Log([op |-> "rest", k |-> IF r THEN 1 ELSE 0])
MCParse == /\ opts # <<>>
           /\ \E w \in ArgVecs : Parse(ArgsOf(w)) /\ Log([op |-> "parse", w |-> w])
MCParseEnds == /\ opts # <<>>
               /\ \E w \in ArgVecs : ParseEnds(ArgsOf(w)) /\ Log([op |-> "parse", w |-> w])
MCReadFatal == \E k \in 1..3, ty \in Types : ReadFatal(Tok[k], ty) /\ Log([op |-> "get", k |-> k, ty |-> ty])
MCIsSetFatal == \E k \in 1..3 : IsSetFatal(Tok[k]) /\ Log([op |-> "isset", k |-> k])
MCNext == MCDeclare \/ MCDeclareFatal \/ MCDeclareRest \/ MCParse \/ MCParseEnds \/ MCReadFatal \/ MCIsSetFatal
MCSpec == MCInit /\ [][MCNext]_vars
Depth == Len(hist) < MaxDepth
EmitCase == Emit => PrintT("CASE" \o ToJson(hist'))
ParseProps == \A w \in ArgVecs : ParseForgets(ArgsOf(w)) /\ Accounted(ArgsOf(w))
===============================================================================
