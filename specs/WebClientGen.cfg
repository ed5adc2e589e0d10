SPECIFICATION GSpec
CONSTANTS N = 1
 Tokens = {"t1", "t2"}
 MaxLog = 1
