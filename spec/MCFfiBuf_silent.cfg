SPECIFICATION Spec
CONSTANTS
  MaxOuts = 2
  MaxNeed = 2
  Broken = "silent"
INVARIANTS ImplAllowed Progress Ends
CHECK_DEADLOCK FALSE
