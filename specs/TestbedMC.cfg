SPECIFICATION Spec
CONSTANTS NObs = 2
INVARIANTS VerdictExact LookupExact OneCarrier OrderFree
CHECK_DEADLOCK FALSE
