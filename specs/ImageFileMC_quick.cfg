SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Names = {1}
  Imgs <- ImgsQ
  Seps <- SepsQ
  Heads <- HeadsQ
  Ends <- EndsQ
  Tails <- TailsQ
  MaxDepth = 3
  Emit = TRUE
  UseHeads = TRUE
  Cuts = {}
VIEW view
INVARIANTS RoundTrip PrefixFails Decided TailIgnored
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
