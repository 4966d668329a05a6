SPECIFICATION Spec
CONSTANTS
  SizeOf <- BlsSize
  Valid <- BlsValid
INVARIANT Checked
CHECK_DEADLOCK FALSE
