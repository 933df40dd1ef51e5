SPECIFICATION Spec
CONSTANTS
 Meters = {1, 2}
 MaxOps = 5
 Ticks = {0, 3}
 MaxInt = 20
 MaxGroup = 16
INVARIANTS Telescopes LapIsLast
PROPERTIES Independent OnceStarted
CHECK_DEADLOCK FALSE
