SPECIFICATION Spec
INVARIANT Far
CONSTANT Threads = {0,1,2,3,4,5,6,7}
CHECK_DEADLOCK FALSE
