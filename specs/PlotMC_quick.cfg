SPECIFICATION MCSpec
CONSTANTS MaxLen = 4  Emit = TRUE  Plots = {1, 2}
INVARIANTS LastWins
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
