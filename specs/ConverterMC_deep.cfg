SPECIFICATION Spec
CONSTANTS
  Depth = 3
  VMax = 5
  Vs = {0, 6}
  Wide = TRUE
INVARIANTS InLimits Hyst PwrGood OutputLaw Energy CountBound
PROPERTY OnlyAtChecks
CHECK_DEADLOCK FALSE
