------------------------------- MODULE JsonMC -------------------------------
(* Every text made of at most MaxLen lexemes: the reader agrees with the       *)
(* grammar written declaratively, and printing what was read denotes it again. *)
EXTENDS JsonText, TLC, Json
CONSTANTS MaxLen, Emit, Lexemes
VARIABLE text, n
vars == <<text, n>>
Init == text = <<>> /\ n = 0
Grow == \E x \in Lexemes : text' = text \o x /\ n' = n + 1
Spec == Init /\ [][Grow]_vars
Bound == n < MaxLen
EmitCase == Emit => PrintT("CASE" \o ToJson(text'))
\* the grammar, by splitting token sequences
RECURSIVE IsValue(_), IsValues(_), IsMembers(_)
IsValue(s) == IF s = <<>> THEN FALSE
   ELSE IF Len(s) = 1 THEN s[1].k \in Scalar
   ELSE IF s[1].k = "[" /\ s[Len(s)].k = "]" THEN Len(s) = 2 \/ IsValues(SubSeq(s, 2, Len(s) - 1))
   ELSE IF s[1].k = "{" /\ s[Len(s)].k = "}" THEN Len(s) = 2 \/ IsMembers(SubSeq(s, 2, Len(s) - 1))
   ELSE FALSE
IsValues(s) == IF IsValue(s) THEN TRUE
   ELSE \E i \in 2..(Len(s) - 1) : IF s[i].k = "," THEN (IF IsValue(SubSeq(s, 1, i - 1)) THEN IsValues(SubSeq(s, i + 1, Len(s))) ELSE FALSE) ELSE FALSE
IsMember(s) == IF Len(s) >= 3 THEN (IF s[1].k = "str" /\ s[2].k = ":" THEN IsValue(SubSeq(s, 3, Len(s))) ELSE FALSE) ELSE FALSE
IsMembers(s) == IF IsMember(s) THEN TRUE
   ELSE \E i \in 4..(Len(s) - 1) : IF s[i].k = "," THEN (IF IsMember(SubSeq(s, 1, i - 1)) THEN IsMembers(SubSeq(s, i + 1, Len(s))) ELSE FALSE) ELSE FALSE
Lex_lex == {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34, 97, 34>>, <<49>>, <<116, 114, 117, 101>>}
Lex_chars == {<<91>>, <<93>>, <<34>>, <<92>>, <<48>>, <<45>>, <<46>>, <<101>>, <<49>>}
Toks == Tokens(text)
AgreesWithGrammar ==
   IsDocument(Parse(text)) <=> (IF Toks = <<>> THEN FALSE ELSE Toks[1].k \in {"[", "{"} /\ IsValue(Toks))
TailHasDocument == HasTail(Parse(text)) => \E i \in 1..(Len(Toks) - 1) : IsValue(SubSeq(Toks, 1, i))
PrintDenotes == IsDocument(Parse(text)) => Denotes(Text(Tree(Parse(text))), Tree(Parse(text)))
WhiteIgnored == \A w \in {32, 9, 10, 13} : IsDocument(Parse(text)) => Denotes(<<w>> \o text \o <<w>>, Tree(Parse(text)))
=============================================================================
