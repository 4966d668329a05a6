SPECIFICATION Spec
CONSTANTS
  N = 5
  L = 5
INVARIANTS Denotes Partial Written
CHECK_DEADLOCK FALSE
