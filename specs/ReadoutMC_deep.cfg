SPECIFICATION Spec
CONSTANTS MaxN = 12
 MaxB = 5
INVARIANTS Partition Complete
PROPERTIES Independent
