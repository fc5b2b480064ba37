SPECIFICATION Spec
CONSTANTS
  N = 3
  Step = "sum"
INVARIANTS Selects Whole Histograms
