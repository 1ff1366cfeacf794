CONSTANTS
  Ring = 7
  Span = 3
  Masses = {1, 3}
INIT Init
NEXT Next
INVARIANTS Weighted AnyOrder MovesAlong Emit
CHECK_DEADLOCK FALSE
