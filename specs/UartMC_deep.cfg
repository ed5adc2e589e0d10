SPECIFICATION Spec
CONSTANTS N = 3 MaxFrames = 4 Cr = 5 Lf = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
