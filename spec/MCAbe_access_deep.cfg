SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "access"
  MaxKeys = 1
  MaxCts = 1
  MaxRot = 4
  Masters = {"m1", "m2"}
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget Admission
PROPERTY Stable
CHECK_DEADLOCK FALSE
