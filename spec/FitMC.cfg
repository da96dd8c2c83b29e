SPECIFICATION Spec
CONSTANTS Limits = {0, 1, 2, 3, 4}
          Errors = {0, 1, 2, 3}
INVARIANTS Right StableOnly Stops
PROPERTY Ends
CHECK_DEADLOCK FALSE
