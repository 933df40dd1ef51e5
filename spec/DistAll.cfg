SPECIFICATION Spec
CONSTANTS
 N = 8
 Ms = {1, 4, 8}
 MaxStores = 1
 MaxEvents = 13
 Ended = {1}
 Patient = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
