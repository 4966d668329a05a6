SPECIFICATION Spec
CONSTANTS
  N = 3
  C = 2
  Depth = 1
  Backward = FALSE
  Elements <- Small
  SizeOf <- MCSizeOf
  Valid <- anything
INVARIANTS Genuinely Truncated Counted Disagree BadElement Neutral Prefix
CHECK_DEADLOCK FALSE
