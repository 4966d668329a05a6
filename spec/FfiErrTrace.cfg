SPECIFICATION Spec
CONSTANT Threads = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANT Followed
CHECK_DEADLOCK FALSE
