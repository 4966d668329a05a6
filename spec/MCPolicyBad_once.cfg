SPECIFICATION Spec
CONSTANTS
  OrToAndExact = FALSE
  MaxBudget = 4
  MaxList = 2
  MaxCalls = 1
  AllRotated <- OnceEach
INVARIANTS Values Outcome
PROPERTY Atomic
CHECK_DEADLOCK FALSE
