CONSTANTS
  Energies = {0, 1, 5, 12, 40, 100}
  Temps = {50, 100, 273, 300, 301, 500, 1000, 2500}
INIT Init
NEXT Next
INVARIANTS FunctionalEq Known Increasing Agree Shift Scale OwnBounds
CHECK_DEADLOCK FALSE
