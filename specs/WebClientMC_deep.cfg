SPECIFICATION MSpec
CONSTANTS N = 2
 Tokens = {"t1", "t2"}
 MaxLog = 5
INVARIANTS Identity Secrecy NoEarlyAdd Bounded
