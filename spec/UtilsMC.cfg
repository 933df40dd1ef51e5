SPECIFICATION Spec
CONSTANTS
 Meters = {1, 2}
 MaxOps = 4
 Ticks = {0, 1, 5}
 MaxInt = 8
 MaxGroup = 8
INVARIANTS Telescopes LapIsLast
PROPERTIES Independent OnceStarted
CHECK_DEADLOCK FALSE
