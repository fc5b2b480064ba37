SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxR = 2
  NBins = 2
  VolMax = 2
INVARIANTS Correct Mass NonNeg Aligned Progress
