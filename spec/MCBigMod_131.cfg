SPECIFICATION Spec
CONSTANTS
  Base = 4
  Limbs = 4
  M = 131
  Mod <- ModDef
INVARIANT Right
CHECK_DEADLOCK FALSE
