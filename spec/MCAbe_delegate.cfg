SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "delegate"
  MaxKeys = 3
  MaxCts = 1
  MaxRot = 0
  Masters = {"m1"}
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget Admission
PROPERTY Stable
CHECK_DEADLOCK FALSE
