SPECIFICATION Spec
CONSTANTS N = 6
 S = 2
 MaxBlk = 4
INVARIANTS SameAsStepping Complete
CHECK_DEADLOCK FALSE
