SPECIFICATION Spec
CONSTANTS Ranks = {1, 2, 3}
 Values = {0, 1, 2}
 MaxSnaps = 2
INVARIANTS SplitFree Quadratic NotNegative SidewaysFree DelayFree
CHECK_DEADLOCK FALSE
