SPECIFICATION Spec
CONSTANTS
  N = 3
  Grid = 3
INVARIANTS Same Affine Plain
