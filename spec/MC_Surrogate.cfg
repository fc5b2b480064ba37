SPECIFICATION Spec
CONSTANTS
  Away = FALSE
  Grid = 4
INVARIANTS Exact0 Exact1 Order2
CHECK_DEADLOCK FALSE
