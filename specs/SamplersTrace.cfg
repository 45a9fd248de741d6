SPECIFICATION TraceSpec
CONSTANT Ids <- AllIds
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
