SPECIFICATION Spec
CONSTANT Heights = {0, 1}
INVARIANTS Satisfied Noticed
CHECK_DEADLOCK FALSE
