SPECIFICATION Spec
CONSTANTS
 Meters = {1, 2}
 MaxOps = 5
 Ticks = {3}
 MaxInt = 1
 MaxGroup = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
