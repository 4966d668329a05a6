CONSTANTS Depth = 1
  Shared = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Independent Untouched NeverStuck
CHECK_DEADLOCK FALSE
