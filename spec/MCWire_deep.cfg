SPECIFICATION Spec
CONSTANTS
  N = 4
  C = 3
  Depth = 2
  Backward = FALSE
  Elements <- Small
  SizeOf <- MCSizeOf
  Valid <- MCValid
INVARIANTS Genuinely Truncated Counted Disagree BadElement Neutral Prefix Emit
CHECK_DEADLOCK FALSE
