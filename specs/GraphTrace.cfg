SPECIFICATION TraceSpec
CONSTANT ABSENT = 999999
INVARIANT PairsAreEdges
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
