SPECIFICATION Spec
CONSTANTS
  OrToAndExact = FALSE
  MaxBudget = 4
  MaxList = 2
  MaxCalls = 1
  CanRotate <- Over
INVARIANTS Values Outcome
PROPERTY Atomic
CHECK_DEADLOCK FALSE
