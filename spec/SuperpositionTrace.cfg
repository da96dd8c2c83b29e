SPECIFICATION TraceSpec
CONSTANTS Slack = 2
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
