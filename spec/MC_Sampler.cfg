SPECIFICATION Spec
CONSTANTS
  N = 5
  R = 4
  Gather = "rank"
INVARIANTS Once Aligned Blocks Slope
CHECK_DEADLOCK FALSE
