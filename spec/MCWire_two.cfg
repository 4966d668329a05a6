SPECIFICATION Spec
CONSTANTS
  N = 2
  C = 2
  Depth = 2
  Backward = TRUE
  Elements <- Small
  SizeOf <- MCSizeOf
  Valid <- MCValid
INVARIANTS Genuinely Truncated Counted Disagree BadElement Neutral Prefix Emit
CHECK_DEADLOCK FALSE
