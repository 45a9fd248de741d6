SPECIFICATION Spec
CONSTANTS
  Lexemes <- Lex_chars
  MaxLen = 6
  Emit = TRUE
INVARIANT AgreesWithGrammar
INVARIANT TailHasDocument
INVARIANT PrintDenotes
INVARIANT WhiteIgnored
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
