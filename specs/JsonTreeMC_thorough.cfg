SPECIFICATION MCSpec
CONSTANTS
  MaxNodes = 4
  MaxOps = 7
  Emit = TRUE
  Names <- NamesDef
  Texts <- Texts1
  Kinds = {"arr", "obj", "str", "null"}
VIEW View
INVARIANT OwnedOnce
INVARIANT HasText
INVARIANT LookupAgrees
INVARIANT WalkStable
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
