SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3, 7, 16}
  O = {0, 1, 5, 40, 100}
  R = {0, 1, 2, 9, 100}
  Vals = {0, 1}
INVARIANTS Kept RoundTrip Clamp Monotone Nearest Separate
CHECK_DEADLOCK FALSE
