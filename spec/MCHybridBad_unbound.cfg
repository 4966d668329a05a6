SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  OpenBlock <- unbound
INVARIANT Promise
CHECK_DEADLOCK FALSE
