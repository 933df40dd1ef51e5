SPECIFICATION Spec
CONSTANTS
  C = 5
  MaxDeg = 2
INVARIANTS Rules Degrees
CHECK_DEADLOCK FALSE
