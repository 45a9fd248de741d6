SPECIFICATION AdaptSpec
CONSTANTS
  RN = 16
  RA = 9
  Study = "adapt"
  Vals = {0}
  GW = 1
  GH = 1
  Thrs = {5, 6, 7, 8, 15, 247, 248, 249, 250}
  Maxes = {1, 10, 103}
  Steps = 2
  Emit = TRUE
VIEW view
INVARIANTS InRange
PROPERTY Smooth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
