SPECIFICATION MSpec
CONSTANTS K = {"a", "b"}
 N = {1, 2}
 MaxOps = 6
INVARIANTS Agree IterOk
CHECK_DEADLOCK FALSE
