SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxB = 3
INVARIANTS Partition Complete
PROPERTIES Independent
