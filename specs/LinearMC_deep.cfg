SPECIFICATION MCSpec
CONSTANTS
  Vals <- Units
  Dims <- Small
  Qs <- Units
  Emit = FALSE
INVARIANTS TransposeTwice TransposeSwaps Identity InverseLaw
CHECK_DEADLOCK FALSE
