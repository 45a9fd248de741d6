SPECIFICATION Spec
CONSTANTS
  LOW <- Low
  NAN <- Nan
  Iters = 2
  MaxFit = 2
  Scores <- Sc3
  Emit = TRUE
INVARIANTS BestIsMax NeverRejected
PROPERTY Grows
ACTION_CONSTRAINT EmitDone
CHECK_DEADLOCK FALSE
