SPECIFICATION Spec
CONSTANTS Boxes = {1, 2, 3}
 Kinds = {1, 2}
 MaxLen = 3
INVARIANT TypeOk
PROPERTIES Independent NothingLost
CHECK_DEADLOCK FALSE
