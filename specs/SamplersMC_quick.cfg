SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1}
  Seeds = {1, 909692}
  Counts = {1, 9}
  MaxOps = 4
  Emit = TRUE
INVARIANT TypeOK
PROPERTY Independent
ACTION_CONSTRAINT EmitDone
CHECK_DEADLOCK FALSE
