SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Sizes <- SizesDef
  Levels = {0, 255}
  Radii = {0, 1, 2}
  Emit = TRUE
INVARIANTS Mean NoRadius Flipped Bounded Flat Quiet SameEitherWay
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
