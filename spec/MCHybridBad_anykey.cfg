SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  MetaRead <- anykey
INVARIANT Promise
CHECK_DEADLOCK FALSE
