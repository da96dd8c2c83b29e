SPECIFICATION Spec
CONSTANTS Slopes = {1, 2}
          Depth = 4
INVARIANTS Lawful Wave Rigid
CHECK_DEADLOCK FALSE
