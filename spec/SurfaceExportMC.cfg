SPECIFICATION Spec
CONSTANTS Ranks <- MCRanks
 Start = 4
 Record <- MCRecord
 Snaps = 3
INVARIANTS WholeOnly NothingLost NearlyAll AllOfACompleteRun
PROPERTY EventuallyRead
CHECK_DEADLOCK FALSE
