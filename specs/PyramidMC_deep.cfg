SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Builders = {1}
  Pyrs = {1}
  Ns = {1, 2, 3, 4, 5, 6}
  Steps = {1, 2, 3}
  Factors <- FactorsQ
  Ws = {1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 32, 33, 100, 255, 640}
  MaxBuilds = 1
  Emit = FALSE
VIEW view
INVARIANTS AsAnnounced Shrinking CountOK FirstIsInput
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
