SPECIFICATION Spec
CONSTANTS Ranks = {0, 1, 2}
          Loads = 2
          InPlace = TRUE
INVARIANTS OnlyRepaired
CHECK_DEADLOCK FALSE
