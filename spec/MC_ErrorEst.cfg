SPECIFICATION Spec
CONSTANTS
  N = 4
  NB = 3
  Rule = "delaunay"
INVARIANTS Symmetric Connected Line Sets True Upper Whole Nothing Opposite Everything
CHECK_DEADLOCK FALSE
