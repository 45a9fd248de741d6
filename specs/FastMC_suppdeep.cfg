SPECIFICATION SuppSpec
CONSTANTS
  RN = 16
  RA = 9
  Study = "supp"
  Vals = {0, 1, 2}
  GW = 4
  GH = 3
  Thrs = {5, 6, 7, 8, 15, 247, 248, 249, 250}
  Maxes = {1, 10, 103}
  Steps = 2
  Emit = FALSE
VIEW view
INVARIANTS NoTwoAdjacent StrongestStays DroppedHasRival

ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
