SPECIFICATION Spec
CONSTANTS
  Ranges = "all"
  Kinds = {"normal", "indexed", "sparse"}
  Prune = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
