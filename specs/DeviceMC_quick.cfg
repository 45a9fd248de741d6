SPECIFICATION MCSpec
CONSTANTS MaxLen = 6  Caps = {2, 5}  Sizes = {0, 1, 2, 3}  Emit = TRUE  Ids = {1}
INVARIANTS Accounted Told Bounded Honest
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
