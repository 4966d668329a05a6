SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Design = ""
  Depth = 4
  Emit = TRUE
INVARIANTS Promise Same Sequences
CHECK_DEADLOCK FALSE
