CONSTANTS Decays = {1, 3} Steps = {0, 1, 2} States = {0, 1, 5} Clock = {0, 1} Calls = 4
SPECIFICATION Spec
INVARIANTS Right Same
CHECK_DEADLOCK FALSE
