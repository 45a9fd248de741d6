SPECIFICATION MCSpec
CONSTANTS
  Values <- Few
  MaxLen = 6
  MaxBorder = 7
  Emit = FALSE
INVARIANTS TypeOK LineKept Symmetric Flat BoxIsSym
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
