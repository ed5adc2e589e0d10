SPECIFICATION GSpec
CONSTANTS K = {"a"}
 N = {1}
 MaxOps = 1
CHECK_DEADLOCK FALSE
