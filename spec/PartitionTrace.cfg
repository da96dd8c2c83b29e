SPECIFICATION TraceSpec
INVARIANT OutcomeOk
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
