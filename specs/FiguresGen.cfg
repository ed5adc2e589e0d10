SPECIFICATION GSpec
CONSTANTS N = 4
 V = 3
CHECK_DEADLOCK FALSE
