SPECIFICATION Spec
CONSTANTS
  Base = 4
  Limbs = 3
  M = 37
  Mod <- ModDef
INVARIANT Right
CHECK_DEADLOCK FALSE
