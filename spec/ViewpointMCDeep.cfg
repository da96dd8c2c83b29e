SPECIFICATION Spec
CONSTANTS Slopes = {0, 1, 2, 5}
          Depth = 6
INVARIANTS Lawful Wave Rigid
CHECK_DEADLOCK FALSE
