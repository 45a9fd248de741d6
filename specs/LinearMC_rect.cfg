SPECIFICATION MCSpec
CONSTANTS
  Vals <- Units
  Dims <- Shapes
  Qs <- Units
  Emit = TRUE
INVARIANTS TransposeTwice TransposeSwaps Identity
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
