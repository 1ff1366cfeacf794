SPECIFICATION Spec
CONSTANTS NIn = 2 NCalls = 3 Discipline = "alias" Ops = {"double", "next"}
INVARIANTS Kept Outcomes
PROPERTY Steady
CHECK_DEADLOCK FALSE
