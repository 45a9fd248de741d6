SPECIFICATION MCSpec
CONSTANTS
  Vals <- Two
  Dims <- Small
  Qs <- Two
  Emit = TRUE
INVARIANTS TransposeTwice TransposeSwaps Identity InverseLaw
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
