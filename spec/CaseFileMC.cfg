SPECIFICATION Spec
CONSTANT MaxEdits = 1
INVARIANT OrderFree
INVARIANT Defaults
INVARIANT Separate
CHECK_DEADLOCK FALSE
