SPECIFICATION Spec
CONSTANTS
  Ranges = "one"
  Kinds = {"normal", "indexed", "sparse"}
  Prune = FALSE
INVARIANTS NoRepetition Exact Bounded NoTerminating
CHECK_DEADLOCK FALSE
