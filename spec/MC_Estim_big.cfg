CONSTANTS
  NObs = 3
INIT Init
NEXT Next
INVARIANTS AxesAddUp PlanesAddUp UnitCharge Scaling Opposite OneCharge Order Variances Half
CHECK_DEADLOCK FALSE
