SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxRuns = 4
  Runners = 1
  Aside = TRUE
INVARIANTS NothingOverwritten NeverPartial ForeignIgnored
PROPERTIES NewVersionNewer ReadsNewest
CHECK_DEADLOCK FALSE
