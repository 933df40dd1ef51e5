SPECIFICATION Spec
CONSTANTS
 N = 3
 Classes = {1, 2}
INVARIANTS WholeStage OnlyConfirmed NothingLost Cancelled Reported NoRepeats OrderKept
CHECK_DEADLOCK FALSE
