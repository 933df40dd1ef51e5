SPECIFICATION Spec
VIEW view
CONSTANTS
  Classes = {"exp", "super_exp", "poly", "mixed", "raises"}
  Lists = {{"exp"}, {"exp", "super_exp"}, {"poly", "mixed"}}
  MaxLen = 5
  MaxLog = 5
  Coeffs = {"-4", "-3", "-2", "-1", "0", "1", "2", "5"}
INVARIANTS InOrder OwnNote Idempotent OneByOne Complement
PROPERTIES Lost
CHECK_DEADLOCK FALSE
