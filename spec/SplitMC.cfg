SPECIFICATION Spec
CONSTANTS
  MaxDims = 2
  MaxW = 4
  MaxParts = 4
CONSTRAINT Bound
INVARIANTS Partitioned CanGoOn
CHECK_DEADLOCK FALSE
