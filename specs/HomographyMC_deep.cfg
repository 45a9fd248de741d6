SPECIFICATION QSpec
CONSTANTS
  G = 4
  E = 1
  Emit = FALSE
INVARIANTS VanishingOK AffineOK
CHECK_DEADLOCK FALSE
