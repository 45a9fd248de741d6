SPECIFICATION MCSpec
CONSTANTS
  NA = NA
  MCTypes = {"string", "int", "factor"}
  MaxDepth = 6
  MaxRows = 1
  MaxCols = 2
  Emit = TRUE
VIEW View
INVARIANT FrameInv
INVARIANT RoundTrip
PROPERTY Kept
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
