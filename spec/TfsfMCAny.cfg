CONSTANTS W = 3 H = 2 Rule = "numbering" Convex = FALSE
SPECIFICATION Spec
INVARIANTS Sided Done Still
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
