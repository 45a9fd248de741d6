SPECIFICATION CsvSpec
CONSTANTS
  NA = NA
  Alphabet = {49, 44, 34, 10}
  MaxLen = 8
  Emit = FALSE
INVARIANT BalancedQuotes
INVARIANT RecordCount
INVARIANT FieldCount
INVARIANT Stable
INVARIANT TypesHold
CONSTRAINT Bound
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
