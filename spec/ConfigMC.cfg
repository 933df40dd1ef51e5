SPECIFICATION Spec
CONSTANTS Thorough = FALSE
INVARIANTS RoundTrip KnownFuncs
PROPERTIES Same
CHECK_DEADLOCK FALSE
