SPECIFICATION Spec
VIEW view
CONSTANTS
  Depth = 6
  Discard = TRUE
INVARIANTS Fresh Solved
