SPECIFICATION MCSpec
CONSTANTS Slack = 0
 N = 3
 Values = {0, 1, 2}
INVARIANTS OrderFree NeverRefused StartAndLater
CHECK_DEADLOCK FALSE
