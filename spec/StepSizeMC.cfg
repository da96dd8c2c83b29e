SPECIFICATION Spec
CONSTANTS Ranks = {1, 2}
          Parts = {1, 2, 3}
          Limits = {1, 2}
          Courants = {50}
          None = 0
INVARIANTS Right OneStep Alone
PROPERTY AllChoose
CHECK_DEADLOCK FALSE
