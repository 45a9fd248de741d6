SPECIFICATION MCSpec
CONSTANTS
  NA = NA
  MCTypes = {"string", "factor"}
  MaxDepth = 99
  MaxRows = 2
  MaxCols = 2
  Emit = FALSE
VIEW View
INVARIANT FrameInv
INVARIANT RoundTrip
PROPERTY Kept
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
