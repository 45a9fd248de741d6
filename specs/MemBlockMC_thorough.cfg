SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  Bufs = {1}
  UNK = 999
  Sizes = {0, 1, 2}
  Vals = {7}
  MaxDepth = 5
  Emit = TRUE
VIEW view
INVARIANT MemInv
INVARIANT PrefixKept
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
