SPECIFICATION Spec
VIEW view
CONSTANTS
  Classes = {"exp", "super_exp", "poly", "mixed", "raises"}
  Lists = {{"exp"}, {"exp", "super_exp"}, {"poly", "mixed"}}
  MaxLen = 4
  MaxLog = 4
  Coeffs = {"-2", "-1", "0", "1", "3"}
INVARIANTS InOrder OwnNote Idempotent OneByOne Complement
PROPERTIES Lost
CHECK_DEADLOCK FALSE
