SPECIFICATION Spec
CONSTANTS N = 2
          Values = {0, 1, 2, 3}
          Times_ = 3
INVARIANTS Faithful CutSeen
PROPERTY Exported
CHECK_DEADLOCK FALSE
