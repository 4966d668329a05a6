SPECIFICATION Spec
CONSTANTS
  N = 3
  C = 2
  Depth = 1
  Backward = FALSE
  Elements <- Small
  Elems <- firstonly
  SizeOf <- MCSizeOf
  Valid <- MCValid
INVARIANTS Genuinely Truncated Counted Disagree BadElement Neutral Prefix
CHECK_DEADLOCK FALSE
