SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Dims <- DimsV
  Vals = {0, 7, 255}
  MaxLen = 2
  Emit = FALSE
VIEW view
INVARIANTS Accepted DownUp ScaleOne InRange Transposed Flat
CHECK_DEADLOCK FALSE
