SPECIFICATION Spec
CONSTANTS MaxN = 12
 MaxL = 5
 Pts = 4
 MaxI = 30
INVARIANTS Gapless Complete
