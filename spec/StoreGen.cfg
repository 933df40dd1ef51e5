SPECIFICATION Spec
CONSTANTS
  MaxRuns = 4
  Runners = 2
  Aside = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
