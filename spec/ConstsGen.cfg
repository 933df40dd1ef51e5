SPECIFICATION Spec
CONSTANTS
  Precs = {0, 5, 15, 17, 30, 50, 90, 98, 99, 100, 104, 105, 150, 200}
  MaxLog = 9
  Depth = 30
INVARIANTS Emit
CHECK_DEADLOCK FALSE
