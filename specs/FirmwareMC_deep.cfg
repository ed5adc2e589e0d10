SPECIFICATION Spec
CONSTANTS BYTE = 3
 Names = {"a", "b"}
 MaxOps = 4
INVARIANTS ReadsBack KeepsOriginal OnlyFitting Delivered Canonical Identity
CHECK_DEADLOCK FALSE
