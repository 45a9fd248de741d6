SPECIFICATION MCSpec
CONSTANTS
  Sizes <- Larger
  Values <- Two
  Ts <- Maps
  Emit = FALSE
INVARIANTS KeepsConstant Exact Periodic Agree Range
CHECK_DEADLOCK FALSE
