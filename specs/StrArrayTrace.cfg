SPECIFICATION TraceSpec
CONSTANTS
  NULLS <- NullVal
  NONE = NONE
  Arrays = {1, 2, 3}
INVARIANT StrInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
