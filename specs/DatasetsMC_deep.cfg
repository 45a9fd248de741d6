SPECIFICATION MCSpec
CONSTANTS
  MaxFiles = 8
  Emit = FALSE
INVARIANTS Whole Transposed Known Lengths
PROPERTIES Stable
VIEW View
CHECK_DEADLOCK FALSE
