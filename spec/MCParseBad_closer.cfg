SPECIFICATION Spec
CONSTANTS
  N = 4
  L = 4
  ParseText <- closer
INVARIANTS Denotes Partial
CHECK_DEADLOCK FALSE
