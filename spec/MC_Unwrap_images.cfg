CONSTANTS
  Sizes = {3}
  T = 4
  Images <- Imgs3
SPECIFICATION Spec
INVARIANTS Recovered
CHECK_DEADLOCK FALSE
