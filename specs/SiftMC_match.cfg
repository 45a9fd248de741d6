SPECIFICATION KSpec
CONSTANTS MaxLen = 0  NIn = 1  Emit = TRUE  Vals = {0, 1, 3}  MaxQ = 2  MaxP = 3
INVARIANTS NearestOK FilterOK TieOK OnceOK
ACTION_CONSTRAINT EmitMatch
CHECK_DEADLOCK FALSE
