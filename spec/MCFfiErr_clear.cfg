SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Design = "clear"
  Depth = 5
  Emit = FALSE
INVARIANTS Promise Same
CHECK_DEADLOCK FALSE
