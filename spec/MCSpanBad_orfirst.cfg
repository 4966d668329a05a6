SPECIFICATION Spec
CONSTANTS
  N = 4
  Program <- orfirst
INVARIANTS Exact AnyField
CHECK_DEADLOCK FALSE
