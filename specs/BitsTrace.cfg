SPECIFICATION TraceSpec
CONSTANT UNKNOWN = 2
INVARIANT BitsInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
