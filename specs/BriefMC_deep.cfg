SPECIFICATION MCSpec
CONSTANTS
  Seeds = {"a", "b"}
  Radii = {4, 5}
  Tables = {1, 2}
  MaxLen = 6
  Emit = FALSE
VIEW view
INVARIANTS SeedDecides Tabled ReadAtMost
PROPERTY ReadBack

CHECK_DEADLOCK FALSE
