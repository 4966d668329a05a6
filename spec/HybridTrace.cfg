SPECIFICATION HSpec
CONSTANT OrToAndExact = FALSE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
