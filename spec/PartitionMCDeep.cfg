SPECIFICATION Spec
CONSTANTS W = 3
 H = 2
 MaxRanks = 3
INVARIANTS OutcomeOk GroupsDisjoint
CHECK_DEADLOCK FALSE
