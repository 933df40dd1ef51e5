SPECIFICATION Spec
VIEW view
CONSTRAINT Bound
CONSTANTS
  Numbers = {"0.111", "0.112", "0.120"}
  Names = {"parameters"}
  Accuracies = {2, 3}
  MaxUpdates = 1
  MaxData = 2
  MaxLog = 7
INVARIANT NamesApart
PROPERTIES SetGet Frame UpdateKeeps Gone JoinUnion
CHECK_DEADLOCK FALSE
