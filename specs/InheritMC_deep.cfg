SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"} Fields = {"p"}
INVARIANTS Exact Unaltered ChainBound NoRepeats
PROPERTY Ends
CHECK_DEADLOCK FALSE
