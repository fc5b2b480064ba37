SPECIFICATION Spec
VIEW view
CONSTANTS
  Depth = 4
  Discard = TRUE
INVARIANTS Fresh Answer
