SPECIFICATION Spec
CONSTANTS
  Lexemes <- Lex_lex
  MaxLen = 6
  Emit = TRUE
INVARIANT AgreesWithGrammar
INVARIANT TailHasDocument
INVARIANT PrintDenotes
INVARIANT WhiteIgnored
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
