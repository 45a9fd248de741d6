SPECIFICATION MCSpec
CONSTANTS
  Values <- Few
  MaxLen = 4
  MaxBorder = 4
  Emit = TRUE
INVARIANTS TypeOK LineKept Symmetric Flat BoxIsSym
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
