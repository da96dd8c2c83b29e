SPECIFICATION TraceSpec
CONSTANTS Boxes = {1, 2, 3, 4}
 Kinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
INVARIANT TypeOk
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
