SPECIFICATION TraceSpec
CONSTANTS
  UNK = 2000000000
  Names = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
