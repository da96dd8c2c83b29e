SPECIFICATION Spec
CONSTANT Heights = {0, 1, 3}
INVARIANTS Satisfied Noticed
CHECK_DEADLOCK FALSE
