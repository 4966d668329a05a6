SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = FALSE
  MetaRead <- lax
INVARIANT Promise
CHECK_DEADLOCK FALSE
