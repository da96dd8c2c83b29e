SPECIFICATION TraceSpec
CONSTANT JudgeClock = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
