SPECIFICATION GSpec
CONSTANTS MaxN = 12
 MaxL = 5
 Pts = 4
 MaxI = 2
