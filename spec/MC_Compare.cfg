SPECIFICATION Spec
CONSTANTS
  N = 2
  Mode = "fresh"
INVARIANTS Metric History Covers Logarithm
