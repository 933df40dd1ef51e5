SPECIFICATION Spec
VIEW view
CONSTANTS
  MaxRuns = 3
  Runners = 2
  Aside = TRUE
INVARIANTS NothingOverwritten NeverPartial ForeignIgnored
PROPERTIES NewVersionNewer ReadsNewest
CHECK_DEADLOCK FALSE
