SPECIFICATION Spec
CONSTANTS
  MaxOuts = 3
  MaxNeed = 2
  Broken = ""
INVARIANTS ImplAllowed Progress Ends
CHECK_DEADLOCK FALSE
