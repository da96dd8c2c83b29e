SPECIFICATION Spec
CONSTANTS Ranks = {0, 1, 2, 3}
          Loads = 3
          InPlace = FALSE
INVARIANTS OnlyRepaired Survives
PROPERTY AllLoad
CHECK_DEADLOCK FALSE
