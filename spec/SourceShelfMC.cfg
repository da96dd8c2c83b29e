SPECIFICATION Spec
CONSTANTS Boxes = {1, 2}
 Kinds = {1, 2}
 MaxLen = 4
INVARIANT TypeOk
PROPERTIES Independent NothingLost
CHECK_DEADLOCK FALSE
