SPECIFICATION MCSpec
CONSTANTS
  UNK = 2000000000
  Names = {1}
  Imgs <- ImgsQ
  Seps <- SepsQ
  Heads <- HeadsQ
  Ends <- EndsQ
  Tails <- TailsQ
  MaxDepth = 5
  Emit = TRUE
  UseHeads = FALSE
  Cuts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
VIEW view
INVARIANTS RoundTrip PrefixFails Decided TailIgnored
CONSTRAINT Depth
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
