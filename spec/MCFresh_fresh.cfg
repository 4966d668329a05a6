SPECIFICATION Spec
CONSTANTS
  Design = "fresh"
  Threads = {1, 2}
  Ops = {"msg", "encrypt"}
  Depth = 4
  Emit = FALSE
INVARIANT Promise
CHECK_DEADLOCK FALSE
