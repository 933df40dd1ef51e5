SPECIFICATION Spec
VIEW view
CONSTANTS
  Values <- MoreValues
  Bits = 2
  Accuracies = {1, 2}
  MaxUpdates = 2
  MaxSearches = 1
  MaxLog = 8
INVARIANTS ExactlyOnce OwnDigits NoMiss
PROPERTIES SoundComplete Refinement
CHECK_DEADLOCK FALSE
