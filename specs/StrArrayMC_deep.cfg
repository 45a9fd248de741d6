SPECIFICATION MCSpec
CONSTANTS
  NULLS <- NullVal
  NONE = NONE
  Arrays = {1, 2}
  Strs <- StrsDef
  MaxLen = 2
  MaxItems = 2
  MaxDepth = 99
  Emit = FALSE
VIEW view
INVARIANT StrInv
INVARIANT ReadBack
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
