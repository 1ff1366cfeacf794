CONSTANTS
  Names = {"Li", "O", "Na"}
  MaxAtoms = 4
  EmitMax = 3
INIT Init
NEXT Next
INVARIANTS OnceEach ExactlyAsked AsGiven Complement SubSampled AbsentIsError Emit
CHECK_DEADLOCK FALSE
