SPECIFICATION Spec
INVARIANTS BuckFloor DropBounded DropEnergy Solvable Modes
CHECK_DEADLOCK FALSE
