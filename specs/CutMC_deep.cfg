SPECIFICATION Spec
CONSTANTS MaxLen = 30
 MaxN = 9
 MaxM = 20
 MaxOps = 3
INVARIANTS BlockExact Distinct BigEnough
PROPERTIES Kept
