SPECIFICATION MCSpec
CONSTANTS
  NA = NA
  MCTypes = {"string", "int", "factor", "bool", "double"}
  MaxDepth = 6
  MaxRows = 2
  MaxCols = 2
  Emit = TRUE
VIEW View
INVARIANT FrameInv
INVARIANT RoundTrip
PROPERTY Kept
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
