SPECIFICATION Spec
CONSTANTS
  Base = 8192
  Limbs = 20
  Mod <- OrderLimbs
INVARIANT Followed
CHECK_DEADLOCK FALSE
