SPECIFICATION TraceSpec
CONSTANT Slots = {1, 2, 3}
INVARIANTS Consistent OnlyAllowed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
