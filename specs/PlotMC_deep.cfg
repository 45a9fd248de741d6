SPECIFICATION MCSpec
CONSTANTS MaxLen = 5  Emit = FALSE  Plots = {1, 2}
INVARIANTS LastWins
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
