SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 3
  Emit = FALSE
INVARIANTS Promise Written
CHECK_DEADLOCK FALSE
