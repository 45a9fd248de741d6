SPECIFICATION ASpec
CONSTANTS
  G = 2
  E = 4
  Emit = TRUE
INVARIANTS Orientation Monotone ScaleFree
ACTION_CONSTRAINT EmitQ
CHECK_DEADLOCK FALSE
