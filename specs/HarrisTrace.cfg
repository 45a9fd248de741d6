SPECIFICATION TraceSpec
CONSTANT UNK = 2000000000
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
