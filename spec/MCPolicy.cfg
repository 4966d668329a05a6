SPECIFICATION Spec
CONSTANTS
  OrToAndExact = FALSE
  MaxBudget = 4
  MaxList = 2
  MaxCalls = 2
INVARIANTS Values Outcome
PROPERTY Atomic
CHECK_DEADLOCK FALSE
