SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 5
  Emit = FALSE
INVARIANT Complete
INVARIANT StreamsDistinct
INVARIANT Printable
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
