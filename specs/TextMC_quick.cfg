SPECIFICATION MCSpec
CONSTANTS
  FATAL = FATAL
  Chars = {34, 92, 10, 97, 110, 47}
  MaxLen = 3
  MaxOps = 4
  Emit = TRUE
INVARIANT StreamInv
PROPERTY WriteThenRead
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
