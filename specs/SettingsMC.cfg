SPECIFICATION MSpec
CONSTANTS Wide = FALSE
 MaxSteps = 5
INVARIANTS Limits Fits
PROPERTIES OneStep
