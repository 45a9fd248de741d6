SPECIFICATION MCSpec
CONSTANTS
  MaxNodes = 3
  MaxOps = 6
  Emit = TRUE
  Names <- NamesDef
  Texts <- Texts1
  Kinds = {"arr", "obj", "str", "int"}
VIEW View
INVARIANT OwnedOnce
INVARIANT HasText
INVARIANT LookupAgrees
INVARIANT WalkStable
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
