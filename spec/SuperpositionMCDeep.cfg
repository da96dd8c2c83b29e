SPECIFICATION MCSpec
CONSTANTS Slack = 0
 N = 4
 Values = {0, 1, 5}
INVARIANTS OrderFree NeverRefused StartAndLater
CHECK_DEADLOCK FALSE
