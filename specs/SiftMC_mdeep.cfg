SPECIFICATION KSpec
CONSTANTS MaxLen = 0  NIn = 1  Emit = FALSE  Vals = {0, 1, 2, 4}  MaxQ = 2  MaxP = 3
INVARIANTS NearestOK FilterOK TieOK OnceOK
CHECK_DEADLOCK FALSE
