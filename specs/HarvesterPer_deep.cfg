SPECIFICATION Spec
CONSTANTS Algs = {"cv", "opt", "voc", "po"}
 Window = 4
 Levels = {1, 2, 3, 4, 5}
 Currents = {0, 2}
 MaxLen = 26
 Periodic = TRUE
INVARIANTS SetLimited OptLimited OptFound CvNearest VocFound
PROPERTY AdaptsAtInterval
