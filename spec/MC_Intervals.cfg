CONSTANTS
  MaxN = 5
INIT Init
NEXT Next
INVARIANTS Consistent InRange CompleteByDefault EveryPairOnce CountsBounded Emit
CHECK_DEADLOCK FALSE
