SPECIFICATION Spec
CONSTANTS
  R = 3
  Depth = 2
  Branch = FALSE
INVARIANTS Progress Paired Agree Single
