SPECIFICATION Spec
CONSTANT OrToAndExact = FALSE
INVARIANT Written
CHECK_DEADLOCK FALSE
