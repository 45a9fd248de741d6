SPECIFICATION MCSpec
CONSTANTS MaxLen = 6  Emit = FALSE
INVARIANTS InOrder ErrorsShown FatalShown
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
