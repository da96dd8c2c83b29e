SPECIFICATION Spec
CONSTANTS Ranks = {0, 1, 2}
          Loads = 2
          InPlace = FALSE
INVARIANTS OnlyRepaired Survives
PROPERTY AllLoad
CHECK_DEADLOCK FALSE
