SPECIFICATION Spec
VIEW view
CONSTANTS
  Values <- SmallValues
  Bits = 2
  Accuracies = {1, 2}
  MaxUpdates = 1
  MaxSearches = 1
  MaxLog = 5
INVARIANTS ExactlyOnce OwnDigits NoMiss
PROPERTIES SoundComplete Refinement
CHECK_DEADLOCK FALSE
