SPECIFICATION Spec
CONSTANTS N = 6
 V = 3
INVARIANTS Independent Extremes Counted Agree MeanFits StepOk
CHECK_DEADLOCK FALSE
