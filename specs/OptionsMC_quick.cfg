SPECIFICATION MCSpec
CONSTANTS
  MaxDepth = 5
  MaxArgs = 2
  MaxDecl = 2
  Emit = TRUE
VIEW view
INVARIANT OptInv
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
