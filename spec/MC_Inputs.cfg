SPECIFICATION Spec
CONSTANTS NIn = 2 NCalls = 5 Discipline = "copy" Ops = {"double", "next"}
INVARIANTS Kept Outcomes
PROPERTY Steady
CHECK_DEADLOCK FALSE
