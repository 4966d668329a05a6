SPECIFICATION Spec
CONSTANTS
  N = 4
  Program <- shared
INVARIANTS Exact AnyField
CHECK_DEADLOCK FALSE
