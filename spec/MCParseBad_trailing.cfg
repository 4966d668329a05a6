SPECIFICATION Spec
CONSTANTS
  N = 4
  L = 4
  ParseText <- trailing
INVARIANTS Denotes Partial
CHECK_DEADLOCK FALSE
