CONSTANTS
  Sizes = {3, 4, 5}
  T = 4
  Images = {0}
SPECIFICATION Spec
INVARIANTS Recovered Emit
CHECK_DEADLOCK FALSE
