SPECIFICATION Spec
CONSTANT MaxEdits = 2
INVARIANT OrderFree
INVARIANT Defaults
INVARIANT Separate
CHECK_DEADLOCK FALSE
