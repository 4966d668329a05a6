SPECIFICATION Spec
CONSTANTS
  P = 7
  Few = FALSE
  SZero = 0
  SOne = 1
  SAdd <- ZAdd
  SNeg <- ZNeg
  SMul <- ZMul
  Basis <- Bases
  GtNeg <- unsigned
INVARIANTS Laws Steps
CHECK_DEADLOCK FALSE
