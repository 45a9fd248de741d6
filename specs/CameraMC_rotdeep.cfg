SPECIFICATION RSpec
CONSTANTS
  G = 1
  Emit = FALSE
  Wide = TRUE
INVARIANTS RotOK Dual AxisOK
ACTION_CONSTRAINT EmitScene
CHECK_DEADLOCK FALSE
