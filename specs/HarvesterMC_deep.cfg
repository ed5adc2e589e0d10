SPECIFICATION Spec
CONSTANTS Algs = {"cv", "voc", "po", "opt"}
 Window = 2
 Levels = {1, 2, 4}
 Currents = {0, 2}
 MaxLen = 6
 Periodic = FALSE
INVARIANTS OutputSeen SetLimited OptLimited OptFresh
PROPERTY AdaptsAtInterval
