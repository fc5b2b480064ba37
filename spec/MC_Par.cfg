SPECIFICATION Spec
CONSTANTS
  N = 4
  R = 3
  Race = FALSE
  LocalSum = FALSE
INVARIANTS Serial SameEverywhere Partition Progress
