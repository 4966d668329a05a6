SPECIFICATION Spec
CONSTANTS
  OrToAndExact = FALSE
  MaxBudget = 6
  MaxList = 3
  MaxCalls = 2
INVARIANTS Values Outcome
PROPERTY Atomic
CHECK_DEADLOCK FALSE
