SPECIFICATION Spec
CONSTANTS MaxLen = 14
 MaxN = 6
 MaxM = 9
 MaxOps = 2
INVARIANTS BlockExact Distinct BigEnough
PROPERTIES Kept
