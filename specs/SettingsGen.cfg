SPECIFICATION GSpec
CONSTANTS Wide = FALSE
 MaxSteps = 1
