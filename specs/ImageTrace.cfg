SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
  Bufs = {1, 2, 3}
  UNK = 2000000000
INVARIANT ImageInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
