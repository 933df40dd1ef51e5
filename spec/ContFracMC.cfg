SPECIFICATION Spec
VIEW view
CONSTANTS
  Coeffs = {"-1", "0", "2"}
  MaxN = 3
  MaxLog = 3
  Fractions = "all"
INVARIANTS HistoryFree NoZeroBehind ExactValue Determinant
PROPERTY FailedAddKeeps
CHECK_DEADLOCK FALSE
