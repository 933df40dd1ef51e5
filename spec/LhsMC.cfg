SPECIFICATION Spec
VIEW view
CONSTANTS
  C = 1
  MaxLog = 4
  MaxDeg = 2
INVARIANTS Denotes CanonReduced CanonStable DegenerateByFunction
CHECK_DEADLOCK FALSE
