SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  MetaRead <- swapped
INVARIANT Promise
CHECK_DEADLOCK FALSE
