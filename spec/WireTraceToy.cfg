SPECIFICATION Spec
CONSTANTS
  SizeOf <- ToySize
  Valid <- ToyValid
INVARIANT Checked
CHECK_DEADLOCK FALSE
