CONSTANTS
  Vals = {1, 2, 3, 5}
INIT Init
NEXT Next
INVARIANTS SymmetricRaw Definite OnTheLine RandomWalk Units Conditioning
CHECK_DEADLOCK FALSE
