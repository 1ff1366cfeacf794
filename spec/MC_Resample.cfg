CONSTANTS
  Starts = {10, 50, 100, 150}
  Caps = {10, 60, 100, 101, 250, 300, 500}
SPECIFICATION Spec
INVARIANTS Bounded AtLeast StopsAtFirstPass EndsNormalOrFull Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
