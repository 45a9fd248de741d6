SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
