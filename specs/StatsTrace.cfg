SPECIFICATION TraceSpec
INVARIANTS OrderFree
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
