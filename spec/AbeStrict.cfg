SPECIFICATION Spec
CONSTANT OrToAndExact = TRUE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
