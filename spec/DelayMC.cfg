SPECIFICATION Spec
CONSTANTS Far = 2
          Widths = {1, 2}
INVARIANTS QuietStart InTime Nobody
PROPERTY ReachesAll
CHECK_DEADLOCK FALSE
