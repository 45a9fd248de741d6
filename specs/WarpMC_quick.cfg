SPECIFICATION MCSpec
CONSTANTS
  Sizes <- Small
  Values <- Two
  Ts <- Maps
  Emit = TRUE
INVARIANTS KeepsConstant Exact Periodic Agree Range
CHECK_DEADLOCK FALSE
