SPECIFICATION MSpec
CONSTANTS OrToAndExact = FALSE
  Cuts = 2
  Emit = TRUE
INVARIANTS Promise Written
CHECK_DEADLOCK FALSE
