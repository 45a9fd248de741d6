SPECIFICATION MCSpec
CONSTANTS
  UNKNOWN = 2
  NS = {1, 7, 8, 9, 16, 17, 24}
  MaxDepth = 6
  Emit = TRUE
VIEW view
INVARIANT BitsInv
PROPERTY OnlyThatBit
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
