SPECIFICATION Spec
CONSTANTS MaxOps = 3
 NFiles = 2
INVARIANTS Complete
PROPERTIES NeverOverwritten CountHonest
