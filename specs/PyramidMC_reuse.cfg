SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Builders = {1}
  Pyrs = {1}
  Ns = {1, 2, 3}
  Steps = {1, 2, 3}
  Factors <- FactorsQ
  Ws = {5, 8}
  MaxBuilds = 2
  Emit = TRUE
VIEW view
INVARIANTS AsAnnounced Shrinking CountOK FirstIsInput
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
