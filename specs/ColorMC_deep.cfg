SPECIFICATION MCSpec
CONSTANTS
  Values <- Many
  Len2 = 4
  MapStep = 1
  Emit = FALSE
INVARIANTS Bytes GrayKept Between MapRange Steady Brighter
CHECK_DEADLOCK FALSE
