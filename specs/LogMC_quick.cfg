SPECIFICATION MCSpec
CONSTANTS MaxLen = 4  Emit = TRUE
INVARIANTS InOrder ErrorsShown FatalShown
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
