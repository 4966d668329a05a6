SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Design = "global"
  Depth = 5
  Emit = FALSE
INVARIANTS Promise Same
CHECK_DEADLOCK FALSE
