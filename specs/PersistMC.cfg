SPECIFICATION Spec
CONSTANTS MaxModels = 3
 MaxRoots = 1
 Files = {"f1", "f2"}
 PlanLen = 4
INVARIANTS RoundTrip ChainTrip Hashes
PROPERTY Immutable
CHECK_DEADLOCK FALSE
