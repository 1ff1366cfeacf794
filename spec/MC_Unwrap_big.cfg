CONSTANTS
  Sizes = {3, 4, 5, 6}
  T = 4
  Images <- Imgs3
SPECIFICATION Spec
INVARIANTS Recovered
CHECK_DEADLOCK FALSE
