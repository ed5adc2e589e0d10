SPECIFICATION Spec
CONSTANTS Algs = {"cv", "opt", "voc", "po"}
 Window = 3
 Levels = {1, 2, 3, 4, 5}
 Currents = {0, 2, 3}
 MaxLen = 14
 Periodic = TRUE
INVARIANTS SetLimited OptLimited OptFound CvNearest VocFound
PROPERTY AdaptsAtInterval
