SPECIFICATION Spec
CONSTANTS
  Ints0 <- MoreInts
  MaxLog = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
