SPECIFICATION MSpec
CONSTANTS Wide = TRUE
 MaxSteps = 3
INVARIANTS Limits Fits
PROPERTIES OneStep
