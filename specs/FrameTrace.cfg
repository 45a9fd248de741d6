SPECIFICATION TraceSpec
CONSTANT NA = NA
INVARIANT FrameInv
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
