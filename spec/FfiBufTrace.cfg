SPECIFICATION Spec
INVARIANT Checked
CHECK_DEADLOCK FALSE
