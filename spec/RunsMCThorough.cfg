SPECIFICATION Spec
CONSTANTS
 Tables = {"T", "U"}
 Parts = {1, 2, 3}
 Searches = {1, 2}
 MaxRuns = 4
INVARIANTS OwnDirectory Grown
PROPERTY Untouched
CHECK_DEADLOCK FALSE
