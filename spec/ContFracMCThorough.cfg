SPECIFICATION Spec
VIEW view
CONSTANTS
  Coeffs = {"-2", "-1", "0", "1", "3"}
  MaxN = 5
  MaxLog = 3
  Fractions = "all"
INVARIANTS HistoryFree NoZeroBehind ExactValue Determinant
PROPERTY FailedAddKeeps
CHECK_DEADLOCK FALSE
