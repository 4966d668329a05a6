SPECIFICATION Spec
CONSTANTS
  P = 7
  Few = TRUE
  SZero = 0
  SOne = 1
  SAdd <- ZAdd
  SNeg <- ZNeg
  SMul <- ZMul
  Basis <- Bases
INVARIANTS Steps Programs
CHECK_DEADLOCK FALSE
