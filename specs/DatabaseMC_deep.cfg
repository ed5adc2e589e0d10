SPECIFICATION MSpec
CONSTANTS K = {"a", "b", "c"}
 N = {1, 2}
 MaxOps = 7
INVARIANTS Agree IterOk
CHECK_DEADLOCK FALSE
