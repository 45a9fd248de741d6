SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
  Bufs = {1, 2, 3}
  UNK = 999999
INVARIANT MemInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
