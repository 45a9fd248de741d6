SPECIFICATION TraceSpec
CONSTANT Ids = {1, 2, 3, 4}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
