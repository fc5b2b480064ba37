SPECIFICATION Spec
CONSTANTS
  MaxC = 3
  MaxW = 3
INVARIANTS SameRect Tiling SumOne
