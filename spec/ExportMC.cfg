SPECIFICATION Spec
CONSTANTS
  Ints0 <- SmallInts
  MaxLog = 1
INVARIANTS ReadBack NothingElse
CHECK_DEADLOCK FALSE
