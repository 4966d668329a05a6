SPECIFICATION Spec
CONSTANTS
  N = 6
  L = 6
INVARIANTS Denotes Partial Written
CHECK_DEADLOCK FALSE
