SPECIFICATION Spec
CONSTANTS NObs = 3
INVARIANTS VerdictExact LookupExact OneCarrier OrderFree
CHECK_DEADLOCK FALSE
