SPECIFICATION GSpec
CONSTANTS BYTE = 2
 Names = {"a"}
 MaxOps = 3
CHECK_DEADLOCK FALSE
