SPECIFICATION Spec
CONSTANTS
  Design = "fresh"
  Threads = {1, 2}
  Ops = {"msg", "encrypt", "hdr", "ukey", "delegate", "master"}
  Depth = 4
  Emit = TRUE
INVARIANTS Promise Sequences
CHECK_DEADLOCK FALSE
