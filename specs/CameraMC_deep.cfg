SPECIFICATION SSpec
CONSTANTS
  G = 1
  Emit = FALSE
  Wide = TRUE
INVARIANTS EpiOK RayOK PoseOK
ACTION_CONSTRAINT EmitScene
CHECK_DEADLOCK FALSE
