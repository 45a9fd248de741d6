SPECIFICATION Spec
CONSTANTS
  B = 8
  F = 2
  MaxChunk = 9
  MaxChunks = 4
  Emit = FALSE
INVARIANT DoneOK
INVARIANT CursorInside
INVARIANT Conserved
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
