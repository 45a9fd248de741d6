SPECIFICATION QSpec
CONSTANTS
  G = 2
  E = 1
  Emit = TRUE
INVARIANTS VanishingOK AffineOK
ACTION_CONSTRAINT EmitQ
CHECK_DEADLOCK FALSE
