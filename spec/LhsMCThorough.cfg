SPECIFICATION Spec
VIEW view
CONSTANTS
  C = 2
  MaxLog = 3
  MaxDeg = 3
INVARIANTS Denotes CanonReduced CanonStable DegenerateByFunction
CHECK_DEADLOCK FALSE
