SPECIFICATION RingSpec
CONSTANTS
  RN = 5
  RA = 3
  Study = "ring"
  Vals <- ValsRing
  GW = 1
  GH = 1
  Thrs = {5, 6, 7, 8, 15, 247, 248, 249, 250}
  Maxes = {1, 10, 103}
  Steps = 2
  Emit = FALSE
VIEW view
INVARIANTS ScoreIsLargest OnlySigns OneKind

ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
