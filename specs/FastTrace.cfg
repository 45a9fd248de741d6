SPECIFICATION TraceSpec
CONSTANTS
  RN = 16
  RA = 9
CHECK_DEADLOCK FALSE
POSTCONDITION TraceDone
