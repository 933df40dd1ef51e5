SPECIFICATION Spec
CONSTANTS
 Meters = {1, 2, 3}
 MaxOps = 14
 Ticks = {0, 1, 5, 1000}
 MaxInt = 1
 MaxGroup = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
