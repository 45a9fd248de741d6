SPECIFICATION MaxSpec
CONSTANTS
  UNK = 2000000000
  Vals = {0, 2}
  GW = 2
  GH = 1
  Maxes = {1, 3, 7, 11, 103}
  Steps = 0
  Emit = TRUE
VIEW view
INVARIANTS Interior NotAdjacent Ordered AboveThr
ACTION_CONSTRAINT EmitMax
CHECK_DEADLOCK FALSE
