SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "collude"
  MaxKeys = 3
  MaxCts = 1
  MaxRot = 2
  Masters = {"m1", "m2"}
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget Admission
PROPERTY Stable
CHECK_DEADLOCK FALSE
