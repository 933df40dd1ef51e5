SPECIFICATION Spec
VIEW view
CONSTANTS
  Coeffs = {"0", "1"}
  MaxN = 5
  MaxLog = 6
  Fractions = "few"
INVARIANTS HistoryFree NoZeroBehind ExactValue Determinant
PROPERTY FailedAddKeeps
CHECK_DEADLOCK FALSE
