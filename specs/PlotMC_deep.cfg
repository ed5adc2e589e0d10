SPECIFICATION MSpec
CONSTANTS Lens = {0, 1, 4, 5, 6, 7, 50, 100, 333, 960, 1000, 1040, 2500, 10000, 26000}
 Rates = {100, 1000, 10000}
 Marks <- ManyMarks
 Limits = {5, 7, 50, 333, 4000}
 MaxOps = 3
INVARIANTS Distinct KeyDetermines Within
PROPERTIES Kept
