SPECIFICATION Spec
VIEW view
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CONSTANTS
  Numbers = {"0.111", "0.112"}
  Names = {"parameters"}
  Accuracies = {2, 3}
  MaxUpdates = 1
  MaxData = 2
  MaxLog = 5
CHECK_DEADLOCK FALSE
