SPECIFICATION Spec
CONSTANTS
 N = 4
 Ms = {2, 4}
 MaxStores = 2
 MaxEvents = 9
 Ended = {1}
 Patient = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
