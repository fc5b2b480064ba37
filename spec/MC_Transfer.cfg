SPECIFICATION Spec
CONSTANTS
  NOld = 3
  NNew = 3
  NEmu = 3
INVARIANTS Conserve ConserveEmulated Identity Support
