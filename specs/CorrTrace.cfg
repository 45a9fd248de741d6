SPECIFICATION TraceSpec
CONSTANT Slots = {1, 2, 3}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
