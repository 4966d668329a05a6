SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  OpenBlock <- nonumber
INVARIANT Promise
CHECK_DEADLOCK FALSE
