SPECIFICATION Spec
CONSTANTS
  Base = 8
  Limbs = 2
  M = 53
  Mod <- ModDef
INVARIANT Right
CHECK_DEADLOCK FALSE
