SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  Bufs = {1}
  UNK = 2000000000
  Dims <- DimsD
  Types = {0, 1}
  Dts = {0, 1}
  Extra = {0, 2}
  MaxDepth = 4
  Emit = TRUE
VIEW view
INVARIANT ImageInv
PROPERTY OnlyNamed
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
