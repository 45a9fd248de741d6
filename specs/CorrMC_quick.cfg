SPECIFICATION MCSpec
CONSTANTS MaxLen = 6  MaxSize = 3  Emit = TRUE  Slots = {1, 2}
INVARIANTS FromGiven Once
PROPERTIES OneAtATime SameMembers SortKeeps
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
