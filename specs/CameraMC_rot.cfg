SPECIFICATION RSpec
CONSTANTS
  G = 1
  Emit = TRUE
  Wide = FALSE
INVARIANTS RotOK Dual AxisOK
ACTION_CONSTRAINT EmitScene
CHECK_DEADLOCK FALSE
