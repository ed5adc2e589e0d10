SPECIFICATION GSpec
CONSTANTS MaxModels = 3
 MaxRoots = 1
 Files = {"f1"}
 PlanLen = 4
