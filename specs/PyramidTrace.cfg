SPECIFICATION TraceSpec
CONSTANTS
  UNK = 2000000000
  Builders = {1, 2}
  Pyrs = {1, 2}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
