SPECIFICATION GSpec
CONSTANTS MaxN = 1
CHECK_DEADLOCK FALSE
