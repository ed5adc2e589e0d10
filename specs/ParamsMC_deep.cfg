SPECIFICATION Spec
CONSTANTS
  Algs = {"isc_voc", "cv"}
  Big2 = TRUE
INVARIANTS IntervalCoversDuration Timing Limits Adapted EmuOnly Sampled
CHECK_DEADLOCK FALSE
