SPECIFICATION MCSpec
CONSTANTS
  MaxDepth = 99
  MaxArgs = 2
  MaxDecl = 3
  Emit = FALSE
VIEW view
INVARIANT OptInv
INVARIANT ParseProps
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
