SPECIFICATION MCSpec
CONSTANTS MaxLen = 8  Caps = {0, 2, 5, 7}  Sizes = {0, 1, 2, 3, 4}  Emit = FALSE  Ids = {1}
INVARIANTS Accounted Told Bounded Honest
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
