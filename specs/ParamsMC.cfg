SPECIFICATION Spec
CONSTANTS
  Algs = {"neutral", "mppt_po", "ivcurve"}
  Big2 = FALSE
INVARIANTS IntervalCoversDuration Timing Limits Adapted EmuOnly Sampled
CHECK_DEADLOCK FALSE
