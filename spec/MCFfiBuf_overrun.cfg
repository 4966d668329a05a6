SPECIFICATION Spec
CONSTANTS
  MaxOuts = 2
  MaxNeed = 2
  Broken = "overrun"
INVARIANTS ImplAllowed Progress Ends
CHECK_DEADLOCK FALSE
