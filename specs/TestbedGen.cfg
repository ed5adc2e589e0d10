SPECIFICATION GSpec
CONSTANTS NObs = 2
