SPECIFICATION Spec
CONSTANTS
  Grid <- SmallGrid
  D = 60
  Slack = 8
  MaxLog = 1
INVARIANTS Laws
CHECK_DEADLOCK FALSE
