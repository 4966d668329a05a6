SPECIFICATION Spec
CONSTANTS
  Design = "stored"
  Threads = {1, 2}
  Ops = {"msg", "encrypt"}
  Depth = 5
  Emit = FALSE
INVARIANT Promise
CHECK_DEADLOCK FALSE
