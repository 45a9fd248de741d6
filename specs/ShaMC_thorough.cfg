SPECIFICATION Spec
CONSTANTS
  B = 4
  F = 1
  MaxChunk = 6
  MaxChunks = 4
  Emit = TRUE
INVARIANT DoneOK
INVARIANT CursorInside
INVARIANT Conserved
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
