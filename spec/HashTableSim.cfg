SPECIFICATION Spec
INVARIANT EmitLong
CONSTANTS
  Numbers = {"0.1111", "0.1112", "0.1120", "0.1200", "0.2000"}
  Names = {"parameters"}
  Accuracies = {1, 2, 3, 4}
  MaxUpdates = 3
  MaxData = 6
  MaxLog = 14
CHECK_DEADLOCK FALSE
