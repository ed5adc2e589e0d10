SPECIFICATION Spec
CONSTANT MaxT = 4
INVARIANTS Verdict OrderFree NoCollision DistinctIdentities ProgrammedFirst OnePerTarget
CHECK_DEADLOCK FALSE
