SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "access"
  MaxKeys = 1
  MaxCts = 1
  MaxRot = 0
  Masters = {"m1", "m2"}
  Outcomes <- anyauthority
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget
PROPERTY Stable
CHECK_DEADLOCK FALSE
