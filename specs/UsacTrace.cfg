SPECIFICATION TraceSpec
CONSTANTS
  LOW <- Low
  NAN <- Nan
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
