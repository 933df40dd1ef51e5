SPECIFICATION Spec
CONSTANTS
  C = 1
  N = 6
INVARIANTS Sound Reflexive NothingLost FirstKept Again
CHECK_DEADLOCK FALSE
