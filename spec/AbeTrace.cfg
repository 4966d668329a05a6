SPECIFICATION Spec
CONSTANT OrToAndExact = FALSE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
