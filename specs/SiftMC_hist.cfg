SPECIFICATION MCSpec
CONSTANTS MaxLen = 4  NIn = 2  Emit = TRUE  Vals = {0}  MaxQ = 0  MaxP = 0
INVARIANTS EntriesOK RefusedOK ApartOK
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
