CONSTANTS
  NP = 3
  T = 2
  D = 1
INIT Init
NEXT Next
INVARIANTS GalileanInvariant FrameworkAtRest NoFrameworkNoChange Emit
CHECK_DEADLOCK FALSE
