SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  Decapsulated <- shared
INVARIANT Promise
CHECK_DEADLOCK FALSE
