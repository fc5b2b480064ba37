SPECIFICATION Spec
CONSTANTS
  N1 = 3
  Grid1 = 6
  N2 = 2
  Grid2 = 4
INVARIANTS Sum1 Count1 Sum2 Pos2 Swap2
