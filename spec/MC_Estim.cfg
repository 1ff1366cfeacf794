CONSTANTS
  NObs = 2
INIT Init
NEXT Next
INVARIANTS AxesAddUp PlanesAddUp UnitCharge Scaling Opposite OneCharge Order Variances Half Emit
CHECK_DEADLOCK FALSE
