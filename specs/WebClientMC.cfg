SPECIFICATION MSpec
CONSTANTS N = 2
 Tokens = {"t1"}
 MaxLog = 4
INVARIANTS Identity Secrecy NoEarlyAdd Bounded
