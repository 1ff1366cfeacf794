CONSTANT B = 4
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
