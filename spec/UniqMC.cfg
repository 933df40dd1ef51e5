SPECIFICATION Spec
CONSTANTS
  C = 1
  N = 4
INVARIANTS Sound Reflexive NothingLost FirstKept Again
CHECK_DEADLOCK FALSE
