SPECIFICATION Spec
CONSTANTS
  B = 4
  F = 1
  MaxChunk = 5
  MaxChunks = 3
  Emit = TRUE
INVARIANT DoneOK
INVARIANT CursorInside
INVARIANT Conserved
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
