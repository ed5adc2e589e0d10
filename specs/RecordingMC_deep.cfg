SPECIFICATION Spec
CONSTANTS
  BUF = 2
  DEFIV = 10
  TOLDIV = 200
  Handles = {1, 2}
  Names = {"r", "r0", "r1"}
  MaxRows = 5
  MaxOps = 5
INVARIANTS OneWriter AttrsAdmissible
PROPERTIES HistoryPreserved OthersUntouched WholeBuffers
