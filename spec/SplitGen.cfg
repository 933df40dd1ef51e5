SPECIFICATION Spec
CONSTANTS
  MaxDims = 3
  MaxW = 5
  MaxParts = 1
CONSTRAINT Bound
INVARIANTS Emit
CHECK_DEADLOCK FALSE
