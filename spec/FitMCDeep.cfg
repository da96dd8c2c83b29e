SPECIFICATION Spec
CONSTANTS Limits = {4, 5}
          Errors = {0, 1, 2, 3, 4}
INVARIANTS Right StableOnly Stops
PROPERTY Ends
CHECK_DEADLOCK FALSE
