SPECIFICATION TraceSpec
INVARIANT OptInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
