SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Dims <- DimsT
  Vals = {3, 254}
  MaxLen = 2
  Emit = TRUE
VIEW view
INVARIANTS Accepted DownUp ScaleOne InRange Transposed Flat
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
