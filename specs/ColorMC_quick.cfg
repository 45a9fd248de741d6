SPECIFICATION MCSpec
CONSTANTS
  Values <- Few
  Len2 = 4
  MapStep = 8
  Emit = TRUE
INVARIANTS Bytes GrayKept Between MapRange Steady Brighter
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
