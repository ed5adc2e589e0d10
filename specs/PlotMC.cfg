SPECIFICATION MSpec
CONSTANTS Lens = {0, 4, 5, 6, 50, 960, 1000, 1040, 2500}
 Rates = {100, 1000}
 Marks <- ManyMarks
 Limits = {5, 7, 50, 333, 4000}
 MaxOps = 2
INVARIANTS Distinct KeyDetermines Within
PROPERTIES Kept
