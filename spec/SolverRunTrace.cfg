SPECIFICATION TraceSpec
CONSTANT JudgeClock = TRUE
INVARIANTS NeverPastFinal StepCount FullSteps
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
