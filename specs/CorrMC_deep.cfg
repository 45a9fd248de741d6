SPECIFICATION MCSpec
CONSTANTS MaxLen = 7  MaxSize = 3  Emit = FALSE  Slots = {1, 2}
INVARIANTS FromGiven Once
PROPERTIES OneAtATime SameMembers SortKeeps
CHECK_DEADLOCK FALSE
