SPECIFICATION Spec
CONSTANTS
 N = 8
 Ms = {1, 2, 4}
 MaxStores = 2
 MaxEvents = 8
 Ended = {1}
 Patient = FALSE
INVARIANTS Deal Whole Complete Invents Kept
PROPERTY Once
CHECK_DEADLOCK FALSE
