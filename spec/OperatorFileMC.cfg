SPECIFICATION Spec
CONSTANTS N = 2
          Values = {0, 1, 3}
          Times_ = 2
INVARIANTS Faithful CutSeen
PROPERTY Exported
CHECK_DEADLOCK FALSE
