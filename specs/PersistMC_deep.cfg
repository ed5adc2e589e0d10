SPECIFICATION Spec
CONSTANTS MaxModels = 4
 MaxRoots = 2
 Files = {"f1"}
 PlanLen = 4
INVARIANTS RoundTrip ChainTrip Hashes
PROPERTY Immutable
CHECK_DEADLOCK FALSE
