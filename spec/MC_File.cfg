SPECIFICATION Spec
CONSTANTS
  R = 3
  AllWrite = FALSE
  BarrierAfter = TRUE
INVARIANTS Sound
