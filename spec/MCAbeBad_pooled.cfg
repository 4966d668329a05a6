SPECIFICATION Spec
CONSTANTS
  OrToAndExact = TRUE
  Focus = "collude"
  MaxKeys = 3
  MaxCts = 1
  MaxRot = 0
  Masters = {"m1"}
  Outcomes <- pooled
INVARIANTS Authorized Refused Foreign Revoked NoAmplification Randomized NoCollusion Budget
PROPERTY Stable
CHECK_DEADLOCK FALSE
