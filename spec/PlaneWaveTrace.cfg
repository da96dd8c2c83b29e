SPECIFICATION TraceSpec
INVARIANTS Directions Travels
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
