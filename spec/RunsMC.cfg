SPECIFICATION Spec
CONSTANTS
 Tables = {"T"}
 Parts = {1, 2}
 Searches = {1, 2}
 MaxRuns = 4
INVARIANTS OwnDirectory Grown
PROPERTY Untouched
CHECK_DEADLOCK FALSE
