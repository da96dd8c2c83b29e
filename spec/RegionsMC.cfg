SPECIFICATION Spec
CONSTANTS CellTags = {1, 2, 3}
 FaceTags = {1, 2, 5}
 Types = {"PEC", "SMA"}
 Eps = {2, 4}
 MaxLists = 2
INVARIANT OrderFree
PROPERTY Untouched
CHECK_DEADLOCK FALSE
