SPECIFICATION Spec
CONSTANTS
  Grid <- LargeGrid
  D = 60
  Slack = 8
  MaxLog = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
