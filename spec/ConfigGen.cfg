SPECIFICATION Spec
CONSTANTS Thorough = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
