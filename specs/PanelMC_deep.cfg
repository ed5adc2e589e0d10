SPECIFICATION Spec
CONSTANTS MaxN = 30
 MaxL = 12
 Pts = 5
 MaxI = 30
INVARIANTS Gapless Complete
