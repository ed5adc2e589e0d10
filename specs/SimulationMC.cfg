SPECIFICATION Spec
CONSTANTS N = 4
 S = 2
 MaxBlk = 3
INVARIANTS SameAsStepping Complete
CHECK_DEADLOCK FALSE
