SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} Fields = {"p", "r"}
INVARIANTS Exact Unaltered ChainBound NoRepeats
PROPERTY Ends
CHECK_DEADLOCK FALSE
