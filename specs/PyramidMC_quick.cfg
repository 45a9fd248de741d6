SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Builders = {1}
  Pyrs = {1}
  Ns = {1, 2, 3, 4}
  Steps = {1, 2, 3}
  Factors <- FactorsQ
  Ws = {1, 2, 3, 8, 13}
  MaxBuilds = 1
  Emit = TRUE
VIEW view
INVARIANTS AsAnnounced Shrinking CountOK FirstIsInput
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
