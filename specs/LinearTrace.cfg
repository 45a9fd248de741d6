SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
