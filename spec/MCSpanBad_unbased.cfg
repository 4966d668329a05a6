SPECIFICATION Spec
CONSTANTS
  N = 4
  Program <- unbased
INVARIANTS Exact AnyField
CHECK_DEADLOCK FALSE
