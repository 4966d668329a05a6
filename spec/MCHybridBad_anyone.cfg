SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  Decapsulated <- anyone
INVARIANT Promise
CHECK_DEADLOCK FALSE
