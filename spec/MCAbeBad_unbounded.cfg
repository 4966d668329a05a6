SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "delegate"
  MaxKeys = 2
  MaxCts = 1
  MaxRot = 0
  Masters = {"m1"}
  Delegated <- unbounded
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget
PROPERTY Stable
CHECK_DEADLOCK FALSE
