SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  MetaRead <- forgiving
INVARIANT Promise
CHECK_DEADLOCK FALSE
