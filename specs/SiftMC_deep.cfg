SPECIFICATION MCSpec
CONSTANTS MaxLen = 6  NIn = 2  Emit = FALSE  Vals = {0}  MaxQ = 0  MaxP = 0
INVARIANTS EntriesOK RefusedOK ApartOK
CHECK_DEADLOCK FALSE
