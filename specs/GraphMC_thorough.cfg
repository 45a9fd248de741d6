SPECIFICATION MCSpec
CONSTANTS
  ABSENT = 999999
  NS = {2, 3, 4}
  Ws = {0, 5}
  MaxDepth = 6
  Emit = TRUE
VIEW view
INVARIANT GraphInv
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
