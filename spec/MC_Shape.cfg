SPECIFICATION Spec
CONSTANTS
  Most = 3
  MaxDim = 3
  Depth = 2
  StoreFirst = FALSE
  Moves = FALSE
  Grids = FALSE
INVARIANTS StoredAsRows NothingTwice InOrder Laws GridLaws
