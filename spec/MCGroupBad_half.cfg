SPECIFICATION Spec
CONSTANTS
  P = 7
  Few = FALSE
  SZero = 0
  SOne = 1
  SAdd <- ZAdd
  SNeg <- ZNeg
  SMul <- ZMul
  Basis <- Bases
  GtAdd <- half
INVARIANTS Laws Steps
CHECK_DEADLOCK FALSE
