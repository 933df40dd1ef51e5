SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
CONSTANTS
  Coeffs = {"0", "1"}
  MaxN = 4
  MaxLog = 6
  Fractions = "few"
CHECK_DEADLOCK FALSE
