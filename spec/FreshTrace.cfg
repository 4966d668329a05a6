SPECIFICATION Spec
CONSTANTS
  Base = 8192
  Limbs = 5
  Mod <- Mersenne61
INVARIANT Followed
CHECK_DEADLOCK FALSE
