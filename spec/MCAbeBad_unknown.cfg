SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "access"
  MaxKeys = 0
  MaxCts = 0
  MaxRot = 1
  Masters = {"m1"}
  CanIssue <- unknown
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget Admission
PROPERTY Stable
CHECK_DEADLOCK FALSE
