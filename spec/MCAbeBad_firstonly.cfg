SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "access"
  MaxKeys = 1
  MaxCts = 1
  MaxRot = 1
  Masters = {"m1"}
  Sat <- SatFirst
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget
PROPERTY Stable
CHECK_DEADLOCK FALSE
