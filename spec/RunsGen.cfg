SPECIFICATION Spec
CONSTANTS
 Tables = {"T", "U"}
 Parts = {1, 2, 3}
 Searches = {1, 2, 3}
 MaxRuns = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
