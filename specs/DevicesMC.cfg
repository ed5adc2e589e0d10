SPECIFICATION MSpec
CONSTANTS MaxN = 3
INVARIANTS Same
CHECK_DEADLOCK FALSE
