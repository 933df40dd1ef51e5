SPECIFICATION Spec
CONSTANTS
  Classes = {"exp", "super_exp", "poly", "mixed", "raises"}
  Lists = {{"exp"}, {"exp", "super_exp"}, {"poly", "mixed"}, {"super_exp"}}
  MaxLen = 6
  MaxLog = 4
  Coeffs = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
