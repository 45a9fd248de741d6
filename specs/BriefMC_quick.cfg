SPECIFICATION MCSpec
CONSTANTS
  Seeds = {"a", "b"}
  Radii = {4, 5}
  Tables = {1, 2}
  MaxLen = 4
  Emit = TRUE
VIEW view
INVARIANTS SeedDecides Tabled ReadAtMost
PROPERTY ReadBack
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
