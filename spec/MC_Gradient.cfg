SPECIFICATION Spec
CONSTANTS
  Kind = "ffd"
  Shared = FALSE
  Deg = 1
INVARIANTS Exact First Count Unit Kernels
