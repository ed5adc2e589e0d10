SPECIFICATION GSpec
CONSTANTS N = 4
 S = 2
 MaxBlk = 3
CHECK_DEADLOCK FALSE
