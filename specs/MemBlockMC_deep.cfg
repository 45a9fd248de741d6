SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  Bufs = {1}
  UNK = 999
  Sizes = {0, 1, 2}
  Vals = {7}
  MaxDepth = 99
  Emit = FALSE
INVARIANT MemInv
INVARIANT PrefixKept
CHECK_DEADLOCK FALSE
