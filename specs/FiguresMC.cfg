SPECIFICATION Spec
CONSTANTS N = 4
 V = 3
INVARIANTS Independent Extremes Counted Agree MeanFits StepOk
CHECK_DEADLOCK FALSE
