SPECIFICATION CtlSpec
CONSTANTS
  UNK = 2000000000
  Vals = {0, 1, 2}
  GW = 1
  GH = 1
  Maxes = {1, 3, 7, 11, 103}
  Steps = 2
  Emit = FALSE
VIEW view
PROPERTY Direction
CHECK_DEADLOCK FALSE
