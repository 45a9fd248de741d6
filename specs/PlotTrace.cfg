SPECIFICATION TraceSpec
CONSTANT Plots = {1, 2}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
