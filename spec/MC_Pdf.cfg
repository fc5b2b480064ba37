SPECIFICATION Spec
CONSTANTS
  Grid = 2
  Entry = "own"
  Cache = FALSE
INVARIANTS Marginal Unit Bandwidth Follows
