SPECIFICATION MCSpec
CONSTANTS
  MaxFiles = 6
  Emit = TRUE
INVARIANTS Whole Transposed Known Lengths
PROPERTIES Stable
VIEW View
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
