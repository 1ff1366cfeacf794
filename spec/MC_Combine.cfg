CONSTANTS
  T = 7
  NRep = 3
INIT Init
NEXT Next
INVARIANTS Whole OrderFree
CHECK_DEADLOCK FALSE
