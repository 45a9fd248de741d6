SPECIFICATION MCSpec
CONSTANTS
  Values <- More
  MaxLen = 6
  Emit = TRUE
INVARIANTS Ordered OrderFree Mirror Moves Halves
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
