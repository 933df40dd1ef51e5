SPECIFICATION Spec
CONSTANTS
  Ints0 <- MoreInts
  MaxLog = 1
INVARIANTS ReadBack NothingElse
CHECK_DEADLOCK FALSE
