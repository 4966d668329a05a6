SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Exact AnyField
CHECK_DEADLOCK FALSE
