CONSTANTS Depth = 2
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Independent Untouched NeverStuck
CHECK_DEADLOCK FALSE
