SPECIFICATION Spec

CONSTANTS
  C = 1
  MaxLog = 5
  MaxDeg = 2
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
