SPECIFICATION Spec
CONSTANTS
  Grid <- ThoroughGrid
  D = 120
  Slack = 32
  MaxLog = 1
INVARIANTS Laws
CHECK_DEADLOCK FALSE
