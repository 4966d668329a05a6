SPECIFICATION Spec
CONSTANTS
  N = 4
  Program <- short
INVARIANTS Exact AnyField
CHECK_DEADLOCK FALSE
