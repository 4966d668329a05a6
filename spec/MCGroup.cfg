SPECIFICATION Spec
CONSTANTS
  P = 7
  Few = FALSE
  SZero = 0
  SOne = 1
  SAdd <- ZAdd
  SNeg <- ZNeg
  SMul <- ZMul
  Basis <- Bases
INVARIANTS Laws Steps Programs
CHECK_DEADLOCK FALSE
