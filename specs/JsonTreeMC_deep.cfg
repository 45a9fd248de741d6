SPECIFICATION MCSpec
CONSTANTS
  MaxNodes = 3
  MaxOps = 6
  Emit = FALSE
  Names <- NamesDef
  Texts <- Texts2
  Kinds = {"arr", "obj", "str", "int", "fp", "true", "false", "null"}
VIEW View
INVARIANT OwnedOnce
INVARIANT HasText
INVARIANT LookupAgrees
INVARIANT WalkStable
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
