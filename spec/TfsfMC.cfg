CONSTANTS W = 3 H = 3 Rule = "numbering" Convex = TRUE
SPECIFICATION Spec
INVARIANTS Sided Done Still
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
