SPECIFICATION Spec
CONSTANTS
  C = 4
  MaxDeg = 4
INVARIANTS Rules Degrees
CHECK_DEADLOCK FALSE
