SPECIFICATION MCSpec
CONSTANTS
  UNKNOWN = 2
  NS = {1, 8, 9, 17}
  MaxDepth = 5
  Emit = TRUE
VIEW view
INVARIANT BitsInv
PROPERTY OnlyThatBit
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
