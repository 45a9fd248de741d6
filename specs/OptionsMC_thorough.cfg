SPECIFICATION MCSpec
CONSTANTS
  MaxDepth = 6
  MaxArgs = 2
  MaxDecl = 2
  Emit = TRUE
VIEW view
INVARIANT OptInv
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
