SPECIFICATION GSpec
CONSTANTS MaxN = 2
