SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "delegate"
  MaxKeys = 3
  MaxCts = 1
  MaxRot = 1
  Masters = {"m1","m2"}
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget Admission
PROPERTY Stable
CHECK_DEADLOCK FALSE
