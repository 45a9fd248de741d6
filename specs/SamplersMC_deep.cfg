SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1, 2}
  Seeds = {1, 909692}
  Counts = {1, 9}
  MaxOps = 6
  Emit = FALSE
INVARIANT TypeOK
PROPERTY Independent
CHECK_DEADLOCK FALSE
