SPECIFICATION TraceSpec
CONSTANT FATAL = FATAL
INVARIANT StreamInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
