SPECIFICATION Spec
CONSTANTS Ranks <- MCRanks3
 Start = 4
 Record <- MCRecord3
 Snaps = 3
INVARIANTS WholeOnly NothingLost NearlyAll AllOfACompleteRun
PROPERTY EventuallyRead
CHECK_DEADLOCK FALSE
