SPECIFICATION Spec
CONSTANTS Far = 4
          Widths = {1, 3}
INVARIANTS QuietStart InTime Nobody
PROPERTY ReachesAll
CHECK_DEADLOCK FALSE
