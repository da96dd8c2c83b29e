SPECIFICATION Spec
CONSTANTS W = 2
 H = 2
 MaxRanks = 3
INVARIANTS OutcomeOk GroupsDisjoint
CHECK_DEADLOCK FALSE
