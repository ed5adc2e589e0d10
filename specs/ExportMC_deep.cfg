SPECIFICATION Spec
CONSTANTS MaxOps = 4
 NFiles = 3
INVARIANTS Complete
PROPERTIES NeverOverwritten CountHonest
