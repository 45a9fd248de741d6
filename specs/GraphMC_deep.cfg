SPECIFICATION MCSpec
CONSTANTS
  ABSENT = 999999
  NS = {4, 5}
  Ws = {1, 2}
  MaxDepth = 99
  Emit = FALSE
VIEW view
INVARIANT GraphInv
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
