CONSTANTS W = 3 H = 3 Rule = "centre" Convex = TRUE
SPECIFICATION Spec
INVARIANTS Sided Done Still
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
