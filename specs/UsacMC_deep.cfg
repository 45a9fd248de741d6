SPECIFICATION Spec
CONSTANTS
  LOW <- Low
  NAN <- Nan
  Iters = 3
  MaxFit = 2
  Scores <- Sc3
  Emit = FALSE
INVARIANTS BestIsMax NeverRejected
PROPERTY Grows
CHECK_DEADLOCK FALSE
