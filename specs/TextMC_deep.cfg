SPECIFICATION MCSpec
CONSTANTS
  FATAL = FATAL
  Chars = {34, 92, 10, 9, 97, 110, 47, 255}
  MaxLen = 4
  MaxOps = 5
  Emit = TRUE
INVARIANT StreamInv
PROPERTY WriteThenRead
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
