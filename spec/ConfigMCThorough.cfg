SPECIFICATION Spec
CONSTANTS Thorough = TRUE
INVARIANTS RoundTrip KnownFuncs
PROPERTIES Same
CHECK_DEADLOCK FALSE
