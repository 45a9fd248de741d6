SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 4
  Emit = TRUE
INVARIANT Complete
INVARIANT StreamsDistinct
INVARIANT Printable
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
