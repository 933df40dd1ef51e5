SPECIFICATION Spec
CONSTANTS
  Values <- SmallValues
  Bits = 2
  Accuracies = {1, 2}
  MaxUpdates = 3
  MaxSearches = 3
  MaxLog = 10
INVARIANT EmitLong
CHECK_DEADLOCK FALSE
