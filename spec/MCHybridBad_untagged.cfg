SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  OpenBlock <- untagged
INVARIANT Promise
CHECK_DEADLOCK FALSE
