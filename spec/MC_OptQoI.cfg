SPECIFICATION Spec
CONSTANTS
  N = 5
  Keep = 3
  R = 3
  Merge = "all"
INVARIANTS Smallest Skew Grows
