SPECIFICATION Spec
CONSTANTS
 N = 4
 Ms = {1, 2, 4}
 MaxStores = 2
 MaxEvents = 7
 Ended = {1}
 Patient = FALSE
INVARIANTS Deal Whole Complete Invents Kept
PROPERTY Once
CHECK_DEADLOCK FALSE
