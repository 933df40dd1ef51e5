SPECIFICATION Spec
CONSTANTS
  Precs = {0, 15, 50, 99}
  MaxLog = 4
  Depth = 140
VIEW View
INVARIANTS LastNamed
PROPERTIES NoneUnchanged
CHECK_DEADLOCK FALSE
