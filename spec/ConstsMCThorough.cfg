SPECIFICATION Spec
CONSTANTS
  Precs = {0, 15, 16, 30, 50, 97, 99, 105, 150, 300}
  MaxLog = 6
  Depth = 146
VIEW View
INVARIANTS LastNamed
PROPERTIES NoneUnchanged
CHECK_DEADLOCK FALSE
